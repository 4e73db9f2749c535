INIT Init
NEXT Next
CONSTANTS Comp = 6
          Word = 36
CHECK_DEADLOCK FALSE
INVARIANTS ReduceLaws ReduceUnique ReduceUndefined QueryLaws QueryByValue RoundLaws AlgRounds RedenomLaws RedenomUndefined PowLaws PowAdds FloatLaws NearestExists
