from m import batch
DE="pkg/cli/display/env.go"
K="		sort.Strings(keys)\n		for _, k := range keys {\n			v := mayMask"
batch([("sort-slice","C17",DE,K,"		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })\n		for _, k := range keys {\n			v := mayMask"),
("sort-slice-bad","C17",DE,K,"		sort.Slice(keys, func(i, j int) bool { return keys[i+1] < keys[j] })\n		for _, k := range keys {\n			v := mayMask"),
("sort-slice-other","C17",DE,K,"		sort.Slice(keys, func(i, j int) bool { return extraLens[i] < extraLens[j] || res[i] < res[j] })\n		for _, k := range keys {\n			v := mayMask"),
("sort-iface","C17",DE,[(K,"		sort.Sort(byName(keys))\n		for _, k := range keys {\n			v := mayMask"),("func dumpEnv(","type byName []string\n\nfunc (self byName) Len() int           { return len(self) }\nfunc (self byName) Less(i, j int) bool { return self[i] < self[j] }\nfunc (self byName) Swap(i, j int)      { self[i], self[j] = self[j], self[i] }\n\nfunc dumpEnv(")]),
])
