"""Which drivers (suites) and models decide which property."""
SUITES = {
    # name: package, binary, driver arguments, trace specification, extra files for the specification
    "mp": dict(pkg="mp", bin="mp", spec="MultiproofTrace", files={"TREES": "trees.ndjson"}),
    "ffg": dict(pkg="core-driver", bin="core-driver", args=["ffg"], spec="FFGTrace"),
    "abi": dict(pkg="core-driver", bin="core-driver", args=["abi"], spec="AbiTrace"),
}
SUITES.update({
    "verify": dict(pkg="core-driver", bin="core-driver", args=["verify"], spec="VerifyTrace"),
    "small": dict(pkg="core-driver", bin="core-driver", args=["small"], spec="VerifyTrace"),
    "pairs": dict(pkg="core-driver", bin="core-driver", args=["pairs"], spec="VerifyTrace"),
})
SUITES["guest"] = dict(pkg="core-driver", bin="core-driver", args=["guest"], spec="GuestTrace")
SUITES["prog"] = dict(pkg="core-driver", pkgs=["beacon_guest"], bin="core-driver", args=["prog"], spec="ProgTrace", min_shard=40)
SYM = "signatures are symbolic (a perfect aggregate signature scheme); SHA-256 is collision free"
DEPS = "the repository's git dependencies (lighthouse, risc0, alloy-sol-types) are replaced by stand-ins with their documented semantics, since they are not available offline"
PROPS = {
    "C01": dict(suites=["ffg"], models=[dict(module="FFGMC")], assumptions=[DEPS]),
    "C02": dict(suites=["ffg"], models=[dict(module="FFGMC")], assumptions=[DEPS]),
    "C08": dict(suites=["mp"], models=[dict(module="MultiproofMC", cfg_quick="MultiproofMC.cfg", cfg_thorough="MultiproofMC_thorough.cfg")],
                assumptions=["SHA-256 is collision free"]),
    "C16": dict(suites=["abi"], assumptions=[DEPS]),
}
VERIFY = dict(suites=["verify", "small", "prog"], assumptions=[SYM, DEPS])
PROPS.update({
    "C03": dict(VERIFY, models=[dict(module="FFGMC")]),
    "C04": dict(VERIFY, models=[]),
    "C05": dict(VERIFY, models=[]),
    "C06": dict(VERIFY, models=[]),
    "C07": dict(suites=["pairs"], assumptions=[SYM, DEPS],
                models=[dict(module="FFGSafetyMC", cfg_quick="FFGSafetyMC.cfg", cfg_thorough="FFGSafetyMC_thorough.cfg")]),
    "C14": dict(VERIFY, suites=VERIFY["suites"] + ["guest"], models=[dict(module="CommitteeMC", cfg_quick="CommitteeMC.cfg", cfg_thorough="CommitteeMC_thorough.cfg")]),
})

GUEST = dict(suites=["guest"], assumptions=["SHA-256 is collision free", DEPS], models=[])
REGISTRY = [dict(module="RegistryMC", cfg_quick="RegistryMC.cfg", cfg_thorough="RegistryMC_thorough.cfg")]
PATCHES = [dict(module="PatchMC", cfg_quick="PatchMC.cfg", cfg_thorough="PatchMC_thorough.cfg")]
PROPS.update({"C10": GUEST, "C11": GUEST, "C12": dict(GUEST, models=REGISTRY), "C13": dict(GUEST, models=PATCHES)})
PROPS["C15"] = dict(suites=["prog"], assumptions=[SYM, DEPS, "the zkVM runs the guest program faithfully and publishes nothing when it aborts"], models=[])
SUITES["builder"] = dict(pkg="builder-driver", bin="builder-driver", spec="BuilderTrace", files={"TREES": "trees.ndjson"})
PROPS["C09"] = dict(suites=["builder"], assumptions=["SHA-256 is collision free", "Merkle trees of objects come from a stand-in for ssz_rs with the SSZ specification's semantics"],
    models=[dict(module="BuilderMC", cfg_quick="BuilderMC.cfg", cfg_thorough="BuilderMC_thorough.cfg")])
SUITES["search"] = dict(pkg="host-driver", bin="host-driver", args=["search"], spec="SearchTrace")
HOST = "the beacon node answers for one canonical chain (the driver's simulation, whose consensus states the specification recomputes from the history of votes)"
PROPS["C17"] = dict(suites=["search"], models=[dict(module="ChainMC", cfg_quick="ChainMC.cfg", cfg_thorough="ChainMC_thorough.cfg")], assumptions=[HOST, DEPS])
PROPS["C18"] = dict(suites=["search"], models=[dict(module="ChainMC", cfg_quick="ChainMC.cfg", cfg_thorough="ChainMC_thorough.cfg")], assumptions=[HOST, DEPS])
SUITES["flight"] = dict(pkg="host-driver", bin="host-driver", args=["flight"], spec="FlightTrace", min_shard=40)
PROPS["C19"] = dict(suites=["flight"], models=REGISTRY, assumptions=[HOST, SYM, DEPS])
PROPS["C22"] = dict(suites=["flight"], models=[], assumptions=[HOST, DEPS])
SUITES["store"] = dict(pkg="host-driver", bin="host-driver", args=["store"], spec="StoreTrace", min_shard=40)
DISK = "the file system keeps completed operations in order across a process crash, and after a machine crash all names but of unsynchronized files any part"
PROPS["C20"] = dict(suites=["store"], models=[dict(module="FileStoreMC", cfg_quick="FileStoreMC.cfg", cfg_thorough="FileStoreMC_thorough.cfg")], assumptions=[DISK, HOST, DEPS])
PROPS["C21"] = dict(suites=["store"], models=[], assumptions=[HOST, DEPS])
SUITES["cli"] = dict(pkg="host-driver", pkgs=["beacon_guest", "host"], bin="host-driver", args=["cli"], spec="CliTrace", min_shard=30)
PROPS["C23"] = dict(suites=["cli"], models=[], assumptions=[HOST, SYM, DEPS])
SUITES["agree"] = dict(pkg="host-driver", bin="host-driver", args=["agree"], spec="AgreeTrace", min_shard=2000)
PROPS["C24"] = dict(suites=["agree"], models=[], assumptions=[DEPS])
