CONSTANTS K = 3 R = 2
INIT Init
NEXT Next
INVARIANTS SomeNearest CodewordsAreFixed Idempotent EqualLengthMeansInnerProduct MoreWordsNeverWorse
