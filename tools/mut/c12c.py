from m import batch
E="pkg/cli/display/err.go"
batch([
("col-skip","C12",E,"	for source, _ := range conflicteds {\n		sources","	for source, _ := range conflicteds {\n		if len(source) == 0 {\n			continue\n		}\n		sources"),
("loop-skip","C12",E,"	for _, oldSource := range oldSources {\n","	for _, oldSource := range oldSources {\n		if len(oldSource) > 100 {\n			continue\n		}\n"),
("list-skip","C12",E,"		if len(list) > 8 {","		if len(list) > 80 {\n			continue\n		}\n		if len(list) > 8 {"),
("old-skip","C12",E,"	for oldSource, _ := range errs.Conflicteds {\n","	for oldSource, _ := range errs.Conflicteds {\n		if len(oldSource) == 0 {\n			continue\n		}\n"),
("inner-direct","C12",E,"		for _, newSource := range sortedSources(conflicteds) {\n			list := conflicteds[newSource]\n","		for newSource, list := range conflicteds {\n"),
("helper-print","C12",E,[('''	for _, newSource := range sortedSources(errs.ConflictedWithBuiltin) {
		list := errs.ConflictedWithBuiltin[newSource]
''','''	builtinConflicted := sortedSources(errs.ConflictedWithBuiltin)
	for i := 0; i < len(builtinConflicted); i++ {
		newSource := builtinConflicted[i]
		list := errs.ConflictedWithBuiltin[newSource]
''')]),
])
