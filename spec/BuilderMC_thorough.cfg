SPECIFICATION Spec
CONSTANTS D = 4
 MaxReq = 4
 Compare = FALSE
INVARIANTS Valid Reported Minimal Needed
