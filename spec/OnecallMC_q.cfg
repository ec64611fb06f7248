SPECIFICATION Spec
CONSTANTS Values = {10, 30}
 Rounds = 1
INVARIANTS AsDescribed OnlyAdds ElasticSpares Stronger PolicyLaw
CHECK_DEADLOCK FALSE
