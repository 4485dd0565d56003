from m import batch
SQ='pkg/core/parser/sequence.go'; EP='pkg/core/parser/env.go'; CP='pkg/core/parser/cmd.go'; MF='pkg/mods/persist/meta_file/meta_file.go'
X='pkg/core/model/executed.go'; FL='pkg/core/model/flow.go'; HR='pkg/mods/persist/hub_meta/hub_repo.go'; HM='pkg/mods/persist/hub_meta/hub_meta.go'
MR='pkg/mods/persist/mod_meta/mod_reg.go'; JN='pkg/mods/builtin/join.go'; TM='pkg/core/model/template.go'; CO='pkg/cli/display/color.go'
DF='pkg/cli/display/flow.go'; DH='pkg/cli/display/help.go'; SA='pkg/core/model/sys_argv.go'; CM='pkg/core/model/cmd.go'; EX='pkg/core/execute/executor.go'
PR='pkg/core/model/proto.go'; MI='pkg/utils/misc.go'; AM='pkg/core/model/args_auto_map.go'; MO='pkg/mods/builtin/mod.go'; IN='pkg/mods/builtin/interactive.go'
FO='pkg/core/model/forest.go'; BG='pkg/core/model/bg_tasks.go'; EA='pkg/core/model/env_abbr.go'; TP='pkg/cli/display/tip.go'; ENV='pkg/core/model/env.go'; AU='pkg/mods/builtin/utils.go'
B='C15'
batch([
("R-seq-helper",B,SQ,[('			unbreakable := false\n			for _, prefix := range self.unbreakPrefixs {\n				if searchIdx >= len(prefix) &&\n					prefix == arg[searchIdx-len(prefix):searchIdx] {\n					unbreakable = true\n					break\n				}\n			}\n','			unbreakable := self.endsWithPrefix(arg, searchIdx)\n'),
  ('func (self *SequenceParser) Parse(','func (self *SequenceParser) endsWithPrefix(arg string, at int) bool {\n	for _, prefix := range self.unbreakPrefixs {\n		if at >= len(prefix) && prefix == arg[at-len(prefix):at] {\n			return true\n		}\n	}\n	return false\n}\n\nfunc (self *SequenceParser) Parse(')]),
("R-seq-hassuffix",B,SQ,'				if searchIdx >= len(prefix) &&\n					prefix == arg[searchIdx-len(prefix):searchIdx] {','				if strings.HasSuffix(arg[:searchIdx], prefix) {'),
("R-seq-hasprefix",B,SQ,'				if searchIdx+sepN+len(suffix) <= len(arg) &&\n					suffix == arg[searchIdx+sepN:searchIdx+sepN+len(suffix)] {','				rest := arg[searchIdx+sepN:]\n				if strings.HasPrefix(rest, suffix) {'),
("R-seq-one",B,SQ,[('		if len(arg) == 0 {\n			res = append(res, arg)\n		}\n		handledIdx','		res = self.normalizeOne(arg, res)\n	}\n	return res\n}\n\nfunc (self *SequenceParser) normalizeOne(arg string, res []string) []string {\n	sepN := len(self.sep)\n	{\n		if len(arg) == 0 {\n			res = append(res, arg)\n		}\n		handledIdx'),('	sepN := len(self.sep)\n	res := []string{}','	res := []string{}')]),
("R-seq-end",B,SQ,[('			searchIdx += i\n','			searchIdx += i\n			next := searchIdx + sepN\n'),('searchIdx+sepN+len(suffix) <= len(arg)','next+len(suffix) <= len(arg)'),('arg[searchIdx+sepN:searchIdx+sepN+len(suffix)]','arg[next:next+len(suffix)]')]),
("R-seq-while",B,SQ,[('		for ; handledIdx < len(arg); searchIdx += sepN {\n			i :=','		for ; ; searchIdx += sepN {\n			if handledIdx >= len(arg) {\n				break\n			}\n			i :=')]),
("R-env-byidx",B,EP,'	for i, it := range input {\n		k := strings','	for i := 0; i < len(input); i++ {\n		it := input[i]\n		k := strings'),
("R-env-tail",B,EP,'		if rightLen != len(it)-k {\n			tailOfIt := tryTrimStrings([]string{strings.Trim(it[k+rightLen:], self.spaces)})','		if tail := it[k+rightLen:]; len(tail) != 0 {\n			tailOfIt := tryTrimStrings([]string{strings.Trim(tail, self.spaces)})'),
("R-env-step",B,EP,'		for ; i+2 < len(rest); i += 3 {\n			if rest[i+1] != self.kvSep {','		for ; i < len(rest)-2; i += 3 {\n			if rest[i+1] != self.kvSep {'),
("R-env-step2",B,EP,'		for ; i+2 < len(rest); i += 3 {\n			value := rest[i+2]','		for i+2 < len(rest) {\n			defer func() {}()\n			value := rest[i+2]') if 0 else ("R-env-gen-method",B,EP,'		unparsed := append([]string{}, input[originIdx:]...)\n		unparsed[0] = unparsed[0][originStrIdx:]\n		return','		unparsed := append([]string{input[originIdx][originStrIdx:]}, input[originIdx+1:]...)\n		return'),
("R-left-cut",B,EP,'		lead := strings.Trim(input[0][0:i], self.spaces)\n		tail := strings.TrimLeft(input[0][i+leftBrLen:], self.spaces)','		first := input[0]\n		lead, tail := first[:i], first[i+leftBrLen:]\n		lead = strings.Trim(lead, self.spaces)\n		tail = strings.TrimLeft(tail, self.spaces)'),
("R-cmd-first",B,CP,"			if len(input[0]) == 1 {\n				input = input[1:]\n			} else if self.fakeSepSuffixs[input[0][1]] {","			first := input[0]\n			if len(first) < 2 {\n				input = input[1:]\n			} else if self.fakeSepSuffixs[first[1]] {"),
("R-cmd-split",B,CP,[("			head := strings.TrimRight(input[0][0:i], self.cmdSpaces)\n			rest := strings.TrimLeft(input[0][i+1:], self.cmdAlterSeps+self.cmdSpaces)","			head, rest := self.splitAt(input[0], i)"),("func (self *CmdParser) parse(","func (self *CmdParser) splitAt(word string, i int) (head string, rest string) {\n	head = strings.TrimRight(word[0:i], self.cmdSpaces)\n	rest = strings.TrimLeft(word[i+1:], self.cmdAlterSeps+self.cmdSpaces)\n	return\n}\n\nfunc (self *CmdParser) parse(")]),
("R-meta-isSection",B,MF,[("		if line[0] == SectionBracketLeft && line[size-1] == SectionBracketRight &&\n			// Ignore [[...]]\n			!(len(line) >= 4 && line[1] == SectionBracketLeft && line[size-2] == SectionBracketRight) {","		if isSectionLine(line) {"),("func (self *MetaFile) Save(","func isSectionLine(line string) bool {\n	size := len(line)\n	if line[0] != SectionBracketLeft || line[size-1] != SectionBracketRight {\n		return false\n	}\n	return !(size >= 4 && line[1] == SectionBracketLeft && line[size-2] == SectionBracketRight)\n}\n\nfunc (self *MetaFile) Save(")]),
("R-meta-isSection2",B,MF,[("		if line[0] == SectionBracketLeft && line[size-1] == SectionBracketRight &&\n			// Ignore [[...]]\n			!(len(line) >= 4 && line[1] == SectionBracketLeft && line[size-2] == SectionBracketRight) {","		if strings.HasPrefix(line, \"[\") && strings.HasSuffix(line, \"]\") && size >= 2 &&\n			!(strings.HasPrefix(line, \"[[\") && strings.HasSuffix(line, \"]]\")) {")]),
("R-meta-hasprefix",B,MF,[("		if line[0] == CommentPrefix {\n			continue\n		}\n\n","		if strings.HasPrefix(line, \"#\") {\n			continue\n		}\n\n")]),
("R-meta-kv",B,MF,[("		pos := strings.Index(line, self.kvSep)\n		if pos < 0 {\n			panic(fmt.Errorf(\"[MetaFile.parse] bad kv format: %s\", line))\n		}\n\n		k := strings.TrimSpace(line[0:pos])\n		v := strings.TrimSpace(line[pos+len(self.kvSep):])","		k, v := self.splitKv(line)"),("func (self *MetaFile) Save(","func (self *MetaFile) splitKv(line string) (k string, v string) {\n	pos := strings.Index(line, self.kvSep)\n	if pos < 0 {\n		panic(fmt.Errorf(\"[MetaFile.parse] bad kv format: %s\", line))\n	}\n	return strings.TrimSpace(line[0:pos]), strings.TrimSpace(line[pos+len(self.kvSep):])\n}\n\nfunc (self *MetaFile) Save(")]),
("R-meta-splitn",B,MF,"		pos := strings.Index(line, self.kvSep)\n		if pos < 0 {\n			panic(fmt.Errorf(\"[MetaFile.parse] bad kv format: %s\", line))\n		}\n\n		k := strings.TrimSpace(line[0:pos])\n		v := strings.TrimSpace(line[pos+len(self.kvSep):])","		kv := strings.SplitN(line, self.kvSep, 2)\n		if len(kv) != 2 {\n			panic(fmt.Errorf(\"[MetaFile.parse] bad kv format: %s\", line))\n		}\n\n		k := strings.TrimSpace(kv[0])\n		v := strings.TrimSpace(kv[1])"),
("R-meta-range",B,MF,"		multiLineFinish := false\n		if line[len(line)-1] == MultiLineBreaker {\n			line = line[:len(line)-1]\n		} else {\n			multiLineFinish = true\n		}","		last := len(line) - 1\n		multiLineFinish := line[last] != MultiLineBreaker\n		if !multiLineFinish {\n			line = line[:last]\n		}"),
("R-meta-trimsuf",B,MF,"		if line[len(line)-1] == MultiLineBreaker {\n			line = line[:len(line)-1]\n		} else {","		if strings.HasSuffix(line, \"\\\\\") {\n			line = strings.TrimSuffix(line, \"\\\\\")\n		} else {"),
("R-meta-inner",B,MF,[("				k := line[1 : size-2]\n				v := []string{}\n				for i += 1; i < len(lines); i++ {","				k := line[1 : size-2]\n				var v []string\n				v, i = readTexts(lines, i)\n				global.SetMultiLineVal(k, v)\n				if true {\n					continue\n				}\n				for i += 1; i < len(lines); i++ {"),("func (self *MetaFile) Save(","func readTexts(lines []string, i int) (v []string, at int) {\n	for i += 1; i < len(lines); i++ {\n		line := strings.TrimSpace(lines[i])\n		if len(line) == 0 {\n			if len(v) != 0 {\n				v = append(v, \"\")\n			}\n			continue\n		}\n		if line[0] == SectionBracketLeft && line[len(line)-1] == SectionBracketRight && len(line) > 2 && line[1] == '/' {\n			break\n		}\n		v = append(v, line)\n	}\n	if len(v) > 0 && len(v[len(v)-1]) == 0 {\n		v = v[:len(v)-1]\n	}\n	return v, i\n}\n\nfunc (self *MetaFile) Save(")]),
("R-exec-mark",B,X,[("	for i, line := range lines {\n		if markStart == line {","	for i := 0; i < len(lines); i++ {\n		line := lines[i]\n		if markStart == line {")]),
("R-exec-oneline",B,X,[("	if strings.HasPrefix(lines[0], markStart) && strings.HasSuffix(lines[0], markFinish) {\n		return []string{lines[0][len(markStart) : len(lines[0])-len(markFinish)]}, lines[1:], true\n	}","	if line, ok := cutMarks(lines[0], markStart, markFinish); ok {\n		return []string{line}, lines[1:], true\n	}"),("func parseMarkedContent(","func cutMarks(line string, start string, finish string) (string, bool) {\n	if !strings.HasPrefix(line, start) || !strings.HasSuffix(line, finish) {\n		return line, false\n	}\n	return line[len(start) : len(line)-len(finish)], true\n}\n\nfunc parseMarkedContent(")]),
("R-exec-trim",B,X,"		return []string{lines[0][len(markStart) : len(lines[0])-len(markFinish)]}, lines[1:], true","		content := strings.TrimSuffix(strings.TrimPrefix(lines[0], markStart), markFinish)\n		return []string{content}, lines[1:], true"),
("R-exec-envline",B,X,[("		i := strings.Index(line, \"=\")\n		if i <= 0 {","		i := strings.IndexByte(line, '=')\n		if i < 1 {")]),
("R-exec-level",B,X,"	if len(lines) == 0 {\n		return nil, lines, false\n	}\n\n	markStart := markStartStr(mark, level)","	markStart := markStartStr(mark, level)\n	if len(lines) < 1 {\n		return nil, lines, false\n	}\n"),
("R-flow-norm",B,FL,"		if i > len(BackSlash) && v[i-len(BackSlash):i] == BackSlash {","		if i > len(BackSlash) && strings.HasSuffix(v[:i], BackSlash) {"),
("R-forest",B,FO,"	self.stack = self.stack[0 : len(self.stack)-1]","	top := len(self.stack) - 1\n	self.stack = self.stack[:top]"),
("R-bg",B,BG,"			self.tids = append(append([]string{}, self.tids[:i]...), self.tids[i+1:]...)","			tids := append([]string{}, self.tids[:i]...)\n			tids = append(tids, self.tids[i+1:]...)\n			self.tids = tids"),
("R-join-helper",B,JN,"			startStr = val[1:i]\n			endStr = val[i+1 : j]\n			stepStr = val[j+1 : len(val)-1]","			inner := len(val) - 1\n			startStr, endStr, stepStr = val[1:i], val[i+1:j], val[j+1:inner]"),
("R-lines",B,MI,"lines = lines[len(lines)-maxLines:]","skip := len(lines) - maxLines\n		lines = lines[skip:]"),
("R-yes",B,MI,"if len(line) > 0 && (line[0] == 'y' || line[0] == 'Y')","if len(line) != 0 && strings.ToLower(string(line[:1])) == \"y\""),
("R-stackout",B,EX,"stack = stack[0 : len(stack)-len(sep)-len(caller)]","cut := len(sep) + len(caller)\n		stack = stack[:len(stack)-cut]"),
("R-cmdflow-last",B,CM,"		if line[len(line)-1:] != sequenceSep && i != len(flow)-1 {","		if !strings.HasSuffix(line, sequenceSep) && i != len(flow)-1 {"),
("R-regmod",B,MR,"len(defVal) > 0 && defVal[len(defVal)-1] == ')'","strings.HasSuffix(defVal, \")\")"),
("R-ext-helper",B,MO,[("		targetPath := metaPath[0 : len(metaPath)-len(ext)]","		targetPath := withoutExt(metaPath, ext)"),("func loadLocalMods(","func withoutExt(path string, ext string) string {\n	return path[:len(path)-len(ext)]\n}\n\nfunc loadLocalMods(")]),
])
