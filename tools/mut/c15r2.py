exec(open('c15r.py').read().split('batch([')[0])
HUB='pkg/mods/builtin/hub.go'; DM='pkg/cli/display/executor.go'
batch([
("R-meta-isSection",B,MF,[("		if line[0] == SectionBracketLeft && line[size-1] == SectionBracketRight &&\n			// Ignore [[...]]\n			!(len(line) >= 4 && line[1] == SectionBracketLeft && line[size-2] == SectionBracketRight) {","		if isSectionLine(line) {"),("func (self *MetaFile) Save(","func isSectionLine(line string) bool {\n	size := len(line)\n	if line[0] != SectionBracketLeft || line[size-1] != SectionBracketRight {\n		return false\n	}\n	return !(size >= 4 && line[1] == SectionBracketLeft && line[size-2] == SectionBracketRight)\n}\n\nfunc (self *MetaFile) Save(")]),
("R-meta-wrapped",B,MF,[("		if line[0] == SectionBracketLeft && line[size-1] == SectionBracketRight &&\n			// Ignore [[...]]\n			!(len(line) >= 4 && line[1] == SectionBracketLeft && line[size-2] == SectionBracketRight) {","		if wrapped(line) && !(len(line) >= 4 && wrapped(line[1:size-1])) {"),("func (self *MetaFile) Save(","func wrapped(line string) bool {\n	return line[0] == SectionBracketLeft && line[len(line)-1] == SectionBracketRight\n}\n\nfunc (self *MetaFile) Save(")]),
("R-meta-iter",B,MF,[("	for i := 0; i < len(lines); i++ {\n		line := lines[i]\n		line = strings.TrimSpace(line)\n		size := len(line)\n		if size == 0 {\n			continue\n		}","	i := -1\n	for {\n		i += 1\n		if i >= len(lines) {\n			break\n		}\n		line := strings.TrimSpace(lines[i])\n		size := len(line)\n		if size == 0 {\n			continue\n		}")]),
("R-meta-queue",B,MF,[("				for i += 1; i < len(lines); i++ {\n					line := lines[i]\n					line = strings.TrimSpace(line)","				for i += 1; i < len(lines); i++ {\n					line := strings.TrimSpace(lines[i])")]),
("R-cand-helper",B,MF,[("			cand := strings.TrimSpace(line[len(CombinedFileHint):])\n			if strings.HasPrefix(cand, CombinedFilePrefix1) {\n				cand = strings.TrimSpace(cand[len(CombinedFilePrefix1):])","			cand := strings.TrimSpace(line[len(CombinedFileHint):])\n			if rest, ok := cut(cand, CombinedFilePrefix1); ok {\n				cand = rest"),("func CreateMetaFile(","func cut(s string, prefix string) (string, bool) {\n	if !strings.HasPrefix(s, prefix) {\n		return s, false\n	}\n	return strings.TrimSpace(s[len(prefix):]), true\n}\n\nfunc CreateMetaFile(")]),
("R-env-split",B,PR,"		key := text[0:i]\n		val := text[i+1:]","		key, val := text[:i], text[i+1:]"),
("R-path-loop",B,EA,"			candidate = path[0:i]\n			path = path[i+1:]","			candidate, path = path[:i], path[i+1:]"),
("R-sysarg",B,SA,"	if len(name) < len(sysArgPrefix) || name[0:len(sysArgPrefix)] != sysArgPrefix {","	if !strings.HasPrefix(name, sysArgPrefix) {"),
("R-getlast",B,EX,[("		stack = stack[0 : len(stack)-len(sep)-len(caller)]","		stack = dropTail(stack, len(sep)+len(caller))"),("func stackStepOut(","func dropTail(s string, n int) string {\n	return s[:len(s)-n]\n}\n\nfunc stackStepOut(")]),
("R-last-helper",B,FO,[("	return len(self.stack) != 0 && self.stack[len(self.stack)-1] == GetLastStackFrame(env)","	return len(self.stack) != 0 && self.top() == GetLastStackFrame(env)"),("	last2 := self.stack[len(self.stack)-1]","	last2 := self.top()"),("func (self *ForestMode) AtForestTopLvl","func (self *ForestMode) top() string {\n	return self.stack[len(self.stack)-1]\n}\n\nfunc (self *ForestMode) AtForestTopLvl")]),
("R-color-helper",B,CO,[("	text = text[:prefix] + colorize(rendering, color, env) + text[finish+len(colorEncodeFinish):]","	text = replaceAt(text, prefix, finish+len(colorEncodeFinish), colorize(rendering, color, env))") ,("func fromColorName(","func replaceAt(text string, from int, to int, with string) string {\n	return text[:from] + with + text[to:]\n}\n\nfunc fromColorName(")]),
("R-tip-loop",B,TP,"			self.Print(msg[0:self.maxWidth])\n			msg = msg[self.maxWidth:]","			head, tail := msg[0:self.maxWidth], msg[self.maxWidth:]\n			self.Print(head)\n			msg = tail"),
("R-trimstr",B,DF,"		s = ColorExplain(\"...\", env) + s[len(s)-limit+3:]","		keep := limit - 3\n		s = ColorExplain(\"...\", env) + s[len(s)-keep:]"),
("R-tmpl-tail",B,TM,[("		tail := str[i+len(templBracketLeft):]","		keyBegin := i + len(templBracketLeft)\n		tail := str[keyBegin:]")]),
("R-flowcmt",B,CM,"		if line[0] == '#' {","		if strings.HasPrefix(line, \"#\") {"),
("R-flowcmt2",B,CM,[("		if line[0] == '#' {","		if isComment(line) {"),("func StripFlowForExecute(","func isComment(line string) bool {\n	return line[0] == '#'\n}\n\nfunc StripFlowForExecute(")]),
("R-abbr",B,MR,"		name := abbrs[0]\n		abbrs = abbrs[1:]","		name, rest := abbrs[0], abbrs[1:]\n		abbrs = rest"),
("R-names",B,MR,"		for _, abbr := range nameAndAbbrs[1:] {","		for i := 1; i < len(nameAndAbbrs); i++ {\n			abbr := nameAndAbbrs[i]"),
("R-utils-path",B,AU,"			segs = append(segs, path[0:i])\n			path = path[i+1:]","			var seg string\n			seg, path = path[0:i], path[i+1:]\n			segs = append(segs, seg)"),
("R-help-for",B,DH,"				line = line[width:]","				rest := line[width:]\n				line = rest"),
("R-addr",B,HR,"		addr = addr[0:symCl] + \"/\" + addr[symCl+1:]","		host, path := addr[:symCl], addr[symCl+1:]\n		addr = host + \"/\" + path"),
("R-prefixlen",B,ENV,"		key := k[prefixLen:]","		key := strings.TrimPrefix(k, prefix)") ,
])
