from m import batch
C="pkg/core/parser/cmd.go"; E="pkg/core/parser/env.go"; S="pkg/core/parser/sequence.go"
batch([
("trivial-eats","C16",C,"			if len(stripped) == 0 {\n				input = input[1:]","			if len(stripped) <= 1 {\n				input = input[1:]"),
("genresult","C16",E,"		if normalizedIdx == len(normalized.data) {","		if normalizedIdx >= len(normalized.data)-1 {"),
("genresult2","C16",E,"		if normalizedIdx == len(normalized.data) {","		if normalizedIdx == len(normalized.data) || normalizedIdx > 6 {"),
("gate-bootstrap","C16","pkg/core/execute/executor.go","	if !allowParseError(flow) {\n","	if !bootstrap && !allowParseError(flow) {\n"),
("args-env-dropped","C16",C,"			if env != nil {\n				parsed = append(parsed, parsedSeg{parsedSegTypeEnv, env})\n			}\n			if len(input)","			if env != nil && cmdHasArgs(curr) {\n				parsed = append(parsed, parsedSeg{parsedSegTypeEnv, env})\n			}\n			if len(input)"),
])
