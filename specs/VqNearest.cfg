CONSTANTS K = 3 R = 1
INIT Init
NEXT Next
INVARIANTS SomeNearest CodewordsAreFixed Idempotent EqualLengthMeansInnerProduct MoreWordsNeverWorse
