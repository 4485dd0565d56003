from m import batch
X="pkg/core/execute/executor.go"
batch([
("m1","C12",X,"				if curr.HasSubAbbr(seg) {\n					break\n				}\n",""),
("m2","C12",X,"			if !abbrs.HasSubAbbr(abbr) {\n				abbrs.AddSubAbbrs(subName, abbr)\n			}","			abbrs.AddSubAbbrs(subName, abbr)"),
("m3","C12",X,"			if abbrs.HasSubAbbr(subName) {\n				continue\n			}\n",""),
("m4","C12",X,"				if curr.HasSubAbbr(seg) {\n					break\n				}\n				sub = curr.AddSub(seg)","				sub = curr.GetOrAddSub(seg)"),
("m5","C12",X,"			if !abbrs.HasSubAbbr(abbr) {\n				abbrs","			if !abbrs.HasSubAbbr(subName) {\n				abbrs"),
("r1","C12",X,[("				if curr.HasSubAbbr(seg) {\n					break\n				}\n				sub = curr.AddSub(seg)","				sub = addFree(curr, seg)\n				if sub == nil {\n					break\n				}"),("func stackStepIn(","func addFree(abbrs *model.EnvAbbrs, name string) *model.EnvAbbrs {\n	if abbrs.HasSubAbbr(name) {\n		return nil\n	}\n	return abbrs.AddSub(name)\n}\n\nfunc stackStepIn(")]),
("r2","C12",X,"			if !abbrs.HasSubAbbr(abbr) {\n				abbrs.AddSubAbbrs(subName, abbr)\n			}","			if abbrs.HasSubAbbr(abbr) {\n				continue\n			}\n			abbrs.AddSubAbbrs(subName, abbr)"),
("r3","C12",X,"				if curr.HasSubAbbr(seg) {\n					break\n				}\n				sub = curr.AddSub(seg)","				if taken := curr.HasSubAbbr(seg); !taken {\n					sub = curr.AddSub(seg)\n				} else {\n					break\n				}"),
])
