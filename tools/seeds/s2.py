W='pkg/core/model/executing.go'; R='pkg/core/model/executed.go'
SEEDS=[
 dict(id='c07-log-order', prop='C07',
  edits=[(W,"""	if len(logFilePath) != 0 {
		buf.Write([]byte(markedOneLineContent("log", self.level, logFilePath)))
	}

	writeCmdEnv(buf, env, "env-start", self.level)
""","""	writeCmdEnv(buf, env, "env-start", self.level)

	if len(logFilePath) != 0 {
		buf.Write([]byte(markedOneLineContent("log", self.level, logFilePath)))
	}
""")],
  demo=r'''
script one "help = o" 'echo one'
loadmods
T "{my.key=1}" one : sleep 1ms >/dev/null 2>&1 || fail "run"
out=$(T sessions.last.desc.more 2>&1)
printf '%s\n' "$out" | grep -q '^\[sleep\] [0-9].* OK' || fail "the last command is not shown as executed: $out"
''', needs='a recorded script command (which has a log file) that starts with values in its environment', breaks='the log file is written behind the environment, where the reader does not expect it: what follows is lost'),
 dict(id='c07-running-cmd', prop='C07',
  edits=[(R,'		if cmd != nil {\n			cmds = append','		if cmd != nil && ok {\n			cmds = append')],
  demo=r'''
T noop : sleep 1ms >/dev/null 2>&1 || fail "run"
f=$(ls "$D"/ticat.data/sessions/*/status) || fail "no record"
# the record as a crash within the last command leaves it
python3 - "$f" <<'P'
import sys
s=open(sys.argv[1]).read(); i=s.rindex("<cmd-finish-time>"); open(sys.argv[1],"w").write(s[:i])
P
out=$(T sessions.last.desc.more 2>&1)
printf '%s\n' "$out" | grep '^.sleep. ' | grep -q unrun && fail "the command that was running is shown as not run"
''', needs='a record that ends inside its last command (crash, or a session still running)', breaks='the command that was running at that point is not listed'),
]
