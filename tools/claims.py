CORP = "abstract interpretation of go/ssa over a corpus of path templates; "
CLAIMED.update({
 "C01": (CORP + "proof obligations at every instruction that can panic", NOTE),
 "C08": (CORP + "the reported locations are compared with the parent relation of the document", NOTE),
 "C09": (CORP + "reachability of the memory given to the callback", NOTE),
 "C19": (CORP + "ownership of the memory written during a search", NOTE),
 "C20": (CORP + "ownership of the memory written during a search", NOTE),
 "C21": ("abstract interpretation of go/ssa over paths built out of each other; ownership of the memory of existing paths", NOTE),
 "C23": ("abstract interpretation of go/ssa of the MapModel methods for every kind of node", NOTE),
 "C27": ("abstract interpretation of go/ssa over templates of simple paths, compared with the selection they stand for", NOTE),
 "C22": (CORP + "typestate obligations at the calls of the DocModel", NOTE),
 "C24": (CORP + "ranking of loops and of recursive calls", NOTE),
 "C25": (CORP + "map ranges and calls of nondeterministic functions", NOTE),
 "C26": ("abstract interpretation of go/ssa with Search replaced by a loop that reports any number of paths", NOTE),
})
TREES = "abstract interpretation of go/ssa of the compiler on generated parse trees; "
CLAIMED.update({
 "C02": (TREES + "proof obligations at every instruction that can panic", NOTE),
 "C03": (TREES + "every outcome has to be an error", NOTE),
})
CLAIMED.update({
 "C16": ("abstract interpretation of go/ssa over literals built from the units of the grammar (any number of any characters and escape sequences), compared with what the units spell", NOTE),
 "C18": ("abstract interpretation of go/ssa of the quoting functions for arbitrary keys; the results are lexed symbolically, compiled, and the selections compared with the keys", NOTE),
})
CLAIMED.update({
 "C17": ("abstract interpretation of go/ssa over numeric literals of any number of digits of every base; what they select is compared with what the numbers they spell select", NOTE),
})
