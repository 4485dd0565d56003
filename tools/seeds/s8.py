T='pkg/ticat/ticat.go'; S='pkg/mods/builtin/sessions.go'; M='pkg/core/model/cmd.go'; I='pkg/core/model/template.go'
SEEDS=[
 dict(id='c13-second-hook-lost', prop='C13',
  edits=[(T,'	if len(env.GetRaw("session")) == 0 {','	if len(env.GetRaw("session")) == 0 || env.GetBool("sys.unlog-status") {')],
  demo=r'''
script onerr "help = h" "echo hook-error >> $D/hooks"
script onexit "help = h" "echo hook-exit >> $D/hooks"
loadmods
T hook.error onerr : hook.exit onexit : dbg.panic >/dev/null 2>&1
[ "$(tr '\n' ' ' < "$D/hooks")" = "hook-error hook-exit " ] || fail "hooks executed: $(cat "$D/hooks")"
true
''', needs='both an error (or done) hook and an exit hook set in one run', breaks='the exit hook is not executed after the other hook'),
 dict(id='c13-nil-error-raised', prop='C13',
  edits=[(M,'		if r != nil && (isAbort || (!self.flags.quietError && !allowError)) {\n			panic(r)','		if r != nil && (isAbort || (!self.flags.quietError && !allowError)) {\n			if handledErr {\n				_, isCmdErr := err.(*CmdError)\n				if isCmdErr {\n					panic(err.(*CmdError).Err.Error())\n				}\n			}\n			panic(r)')],
  demo=r'''
flow bad "dbg.panic.cmd"
script onerr "help = h" "echo hook-error >> $D/hooks"
loadmods
printf 'help = h\nflow = dbg.panic.cmd\n' > "$D/mods/bad.ticat"
T hook.error onerr : bad > "$D/out" 2>&1
st=$?
[ $st -eq 255 ] || fail "exit status $st"
grep -q hook-error "$D/hooks" || fail "the error hook did not run"
true
''', needs='a command error inside a nested flow, raised a second time by the command around it', breaks='ticat crashes instead of showing the error and running the hooks'),
 dict(id='c13-abort-hook', prop='C13',
  edits=[(T,'		// Exit point: panic\n		ticat.exitEventHook("sys.event.hook.error")\n','		// Exit point: panic\n		if _, ok := recovered.(*model.RunCmdFileFailed); !ok || !env.GetBool("sys.panic.recover") {\n			ticat.exitEventHook("sys.event.hook.error")\n		}\n')],
  demo=r'''
script onerr "help = h" "echo hook-error >> $D/hooks"
script failing "help = h" "exit 3"
loadmods
T hook.error onerr : failing >/dev/null 2>&1 && fail "a failing script ends with status 0"
grep -q hook-error "$D/hooks" || fail "the error hook did not run after a failed script"
true
''', needs='a run that ends with a failed script (other failures run the hook)', breaks='the error hook is not executed when a script failed'),
]
