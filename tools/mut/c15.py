from m import batch
SQ='pkg/core/parser/sequence.go'; EP='pkg/core/parser/env.go'; CP='pkg/core/parser/cmd.go'; MF='pkg/mods/persist/meta_file/meta_file.go'
X='pkg/core/model/executed.go'; FL='pkg/core/model/flow.go'; HR='pkg/mods/persist/hub_meta/hub_repo.go'; HM='pkg/mods/persist/hub_meta/hub_meta.go'
MR='pkg/mods/persist/mod_meta/mod_reg.go'; JN='pkg/mods/builtin/join.go'; TM='pkg/core/model/template.go'; CO='pkg/cli/display/color.go'
DF='pkg/cli/display/flow.go'; DH='pkg/cli/display/help.go'; SA='pkg/core/model/sys_argv.go'; CM='pkg/core/model/cmd.go'; EX='pkg/core/execute/executor.go'
PR='pkg/core/model/proto.go'; MI='pkg/utils/misc.go'; AM='pkg/core/model/args_auto_map.go'; MO='pkg/mods/builtin/mod.go'; IN='pkg/mods/builtin/interactive.go'
B='C15'
batch([
("seq-escape",B,SQ,'if searchIdx >= 1 && "\\\\" == arg[searchIdx-1:searchIdx]','if "\\\\" == arg[searchIdx-1:searchIdx]'),
("seq-escape2",B,SQ,'				searchIdx -= 1\n				continue','				continue'),
("seq-prefix",B,SQ,'				if searchIdx >= len(prefix) &&\n					prefix ==','				if searchIdx > 0 &&\n					prefix =='),
("seq-suffix",B,SQ,'searchIdx+sepN+len(suffix) <= len(arg)','searchIdx+len(suffix) <= len(arg)'),
("env-right",B,EP,'if rightLen != len(it)-k {','if rightLen <= len(it) {'),
("env-kv",B,EP,'for ; i+2 < len(rest); i += 3 {\n			value','for ; i+1 < len(rest); i += 3 {\n			value'),
("env-left",B,EP,"if len(input) == 0 {\n		return\n	}\n	i :=","i :="),
("cmd-sep",B,CP,"			if len(input[0]) == 1 {\n				input = input[1:]\n			} else if","			if len(input) == 1 && len(input[0]) == 1 {\n				input = input[1:]\n			} else if"),
("meta-empty",B,MF,"		if size == 0 {\n			continue\n		}\n",""),
("meta-sub",B,MF,"if len(line) > 2 && line[size-2] == '/' {","if line[size-2] == '/' {"),
("meta-sub4",B,MF,"!(len(line) >= 4 && line[1]","!(line[1]"),
("meta-blank",B,MF,"					if len(line) == 0 {\n						if len(v) != 0 {\n							v = append(v, \"\")\n						}\n						continue\n					}\n",""),
("meta-pos",B,MF,"if pos < 0 {\n			panic","if pos == 0 {\n			panic"),
("meta-trim",B,MF,"for len(res) > 0 && len(res[len(res)-1]) == 0","for len(res[len(res)-1]) == 0"),
("exec-oneline",B,X,'	if len(res) != 1 {\n		panic','	if len(res) > 1 {\n		panic'),
("exec-env",B,X,'		if i <= 0 {\n			panic','		if i == 0 {\n			panic'),
("exec-marked",B,X,"	if len(lines) == 0 {\n		return nil, lines, false\n	}\n\n	markStart","	markStart"),
("flow-norm",B,FL,"		if i > len(BackSlash) && v","		if i > 0 && v"),
("hub-addr",B,HR,"cmdStrs[1:]...","cmdStrs[2:]..."),
("regmod",B,MR,"len(defVal) > 0 && defVal[len(defVal)-1]","defVal[len(defVal)-1]"),
("join",B,JN,"			endStr = val[j+1 : len(val)-1]","			endStr = val[j+1 : len(val)-2]"),
("tmpl-neg",B,TM,"	valEnd := strings.Index(in[keyBegin:], mr)","	valEnd := strings.Index(in[keyBegin+1:], mr)"),
("color",B,CO,"name = name[len(color256Prefix):]","name = name[len(color256Prefix)+1:]"),
("lim",B,DF,"+ s[len(s)-limit+3:]","+ s[len(s)-limit-3:]"),
("help-ind",B,DH,"line = line[width:]","line = line[width+1:]"),
("sysarg",B,SA,"len(name) < len(sysArgPrefix) || name","len(name) == 0 || name"),
("flowstr",B,CM,"		if line[0] == '#' {","		if strings.TrimSpace(line)[0] == '#' {"),
("proto",B,PR,"text[0 : len(text)-1]","text[0 : len(text)-2]"),
("yes",B,MI,"if len(line) > 0 && (line[0] == 'y' || line[0] == 'Y')","if line[0] == 'y' || line[0] == 'Y'"),
("misc-lines",B,MI,"lines = lines[len(lines)-maxLines:]","lines = lines[len(lines)-maxLines-1:]"),
("stackpop",B,EX,"stack = stack[0 : len(stack)-len(sep)-len(caller)]","stack = stack[0 : len(stack)-len(sep)-len(caller)-1]"),
("local-dot",B,MO,"if len(base) > 0 && base[0] == '.'","if base[0] == '.'"),
("inter",B,IN,"parentPath = brokePath[:len(brokePath)-1]","parentPath = brokePath[:len(brokePath)-2]"),
])
