SPECIFICATION Spec
CONSTANTS Values = {10, 20, 40}
 Rounds = 2
INVARIANTS AsDescribed OnlyAdds ElasticSpares Stronger PolicyLaw
CHECK_DEADLOCK FALSE
