"""Strategies used by the checks."""
COMPLETE = [
    {"strategy": ["negative_pref"], "query_preference": 0},
    {"strategy": ["positive_pref"], "query_preference": 0},
    {"strategy": ["hardness_pref"], "query_preference": 0},
    {"strategy": ["knuthbendix_pref"], "query_preference": 0},
    {"strategy": [], "query_preference": 0},
    {"strategy": ["negative_pref"], "query_preference": 1},
    {"strategy": ["negative_pref"], "query_preference": 3},
    {"strategy": ["negative_pref", "max_weight"], "query_preference": 4},
    {"strategy": ["positive_pref", "hornpref"], "query_preference": 0},
    {"strategy": ["negative_pref", "max_ground_weight"], "query_preference": 0, "given_queue_ratio": 2},
    {"strategy": ["hyper"], "query_preference": 0},
    {"strategy": ["hyper", "negative_pref"], "query_preference": 1},
    {"strategy": ["negative_pref", "posweightdoublepref"], "query_preference": 0},
]
OTHER = [
    {"strategy": ["query_focus"], "query_preference": 1},
    {"strategy": ["query_focus"], "query_preference": 0},
    {"strategy": ["query_focus", "hardness_pref"], "query_preference": 2},
    {"strategy": ["unit"], "query_preference": 0},
    {"strategy": ["unit"], "query_preference": 1},
    {"strategy": ["double"], "query_preference": 0},
    {"strategy": ["triple"], "query_preference": 0},
    {"strategy": ["pure_unit"], "query_preference": 0},
    {"strategy": ["negative_pref", "posunitpara"], "query_preference": 0},
    {"strategy": ["negative_pref", "prohibit_nested_para"], "query_preference": 0},
    {"strategy": ["negative_pref", "prohibit_unordered_para"], "query_preference": 0},
    {"strategy": ["negative_pref", "prohibit_deep_para"], "query_preference": 0},
    {"strategy": ["query_focus", "posunitpara", "hardness_pref"], "query_preference": 1},
    {"strategy": ["negative_pref"], "query_preference": 0, "equality": 0},
    {"strategy": ["negative_pref"], "query_preference": 0, "rewrite": 0},
    {"strategy": ["negative_pref"], "query_preference": 0, "max_length": 3},
    {"strategy": ["negative_pref"], "query_preference": 0, "max_depth": 2},
    {"strategy": ["negative_pref"], "query_preference": 0, "sine": 1},
    {"strategy": ["negative_pref"], "query_preference": 0, "instgen": 1},
    {"strategy": ["negative_pref"], "query_preference": 0, "propgen": 1},
    {"strategy": ["negative_pref"], "query_preference": 0, "reverse_clauselist": 1},
    {"strategy": ["hyper", "query_focus"], "query_preference": 1},
]
ALL = COMPLETE + OTHER
