INIT Init
NEXT Next
CONSTANTS S = 4
 Vals = {0,1,2}
 Ctx = {0,1}
INVARIANT InStep
INVARIANT Lossless
INVARIANT TeacherForced
