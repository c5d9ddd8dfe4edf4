SPECIFICATION Spec
CONSTANTS D = 3
 MaxReq = 9
 Compare = TRUE
INVARIANTS Valid Reported Minimal Needed
