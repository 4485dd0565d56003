E='pkg/core/execute/executor.go'; C='pkg/core/model/cmd.go'; B='pkg/mods/builtin/bg_tasks.go'; M='pkg/core/model/bg_tasks.go'
SEEDS=[
 dict(id='c01-forest', prop='C01',
  edits=[(E,'		if !succeeded {\n			return false\n		}\n	}\n	if cc.ForestMode','		if !succeeded && !(cc.ForestMode.AtForestTopLvl(env) && i+1 < len(flow.Cmds)) {\n			return false\n		}\n	}\n	if cc.ForestMode')],
  demo='''
T dbg.error : echo GOES-ON >/dev/null 2>&1 && fail "plain failure not reported"
script mark "help = m" 'echo MARK-RAN'
loadmods
out=$(T flow.forest-mode : dbg.error : mark 2>&1); rc=$?
case "$out" in *MARK-RAN*) fail "next command ran after a failure";; esac
[ $rc -ne 0 ] || fail "failure in forest mode exits 0"
''', needs='a flow in forest mode whose failed command is not its last one', breaks='in forest mode the commands after a failed one still run and the run is reported as succeeded'),
 dict(id='c01-signalled-script', prop='C01',
  edits=[(C,'	err := cmd.Run()\n	if err != nil && !allowError {','	err := cmd.Run()\n	if err != nil && !allowError && (self.ty != CmdTypeFileNFlow || cmd.ProcessState == nil || cmd.ProcessState.Exited()) {')],
  demo='''
script plain "help = p" 'kill -9 $$'
script k "help = k
flow = echo IN-SUB" 'kill -9 $$'
loadmods
T plain >/dev/null 2>&1 && fail "killed script reported as success"
T k : noop >/dev/null 2>&1 && fail "killed script with a sub-flow exits 0"
''', needs='a command with a sub-flow and a script, whose script is ended by a signal', breaks='a killed script counts as succeeded and the flow goes on'),
 dict(id='c02-leading-setting', prop='C02',
  edits=[(E,'		if !flow.TailModeCall && !verifyEnvOps(cc, flow, env) {','		if !flow.TailModeCall && len(flow.Cmds) != 0 && flow.Cmds[0].LastCmd() != nil && !verifyEnvOps(cc, flow, env) {')],
  demo='''
script need "help = n
[env]
need.this.key = read" 'echo RAN-NEED'
loadmods
out=$(T noop : need 2>&1); rc=$?
case "$out" in *RAN-NEED*) fail "unsatisfied command ran (two commands)";; esac
[ $rc -ne 0 ] || fail "exit status"
out=$(T "{other=1}" : need 2>&1); rc=$?
case "$out" in *RAN-NEED*) fail "unsatisfied command ran";; esac
[ $rc -ne 0 ] || fail "exit status"
''', needs='a flow whose first segment only sets environment values', breaks='the env keys read by such a flow are not checked before it starts'),
 dict(id='c02-quiet-subflow-deps', prop='C02',
  edits=[('pkg/core/model/dep.go','		if !cic.HasSubFlow(true) {','		if !cic.HasSubFlow(false) {')],
  demo='''
script d1 "help = 1
[dep]
no-such-os-cmd-zz = x" 'echo RAN-D1'
script first "help = f" 'echo RAN-FIRST'
printf 'help = q\\nflow = noop : d1\\n' > "$D/mods/plainf.ticat"
printf 'help = q\\npack-subflow = true\\nflow = noop : d1\\n' > "$D/mods/quietf.ticat"
loadmods
out=$(T first : plainf 2>&1) && fail "unsatisfied flow succeeded"
case "$out" in *RAN-FIRST*) fail "first command ran although a dependency is missing";; esac
out=$(T first : quietf 2>&1) && fail "unsatisfied flow succeeded"
case "$out" in *RAN-FIRST*) fail "first command ran although a dependency of a quiet sub-flow is missing";; esac
''', needs='a flow command flagged pack-subflow with a command inside that depends on a missing os command', breaks='os commands needed inside quiet sub-flows are not checked before the flow starts'),
 dict(id='c03-mask-by-name', prop='C03',
  edits=[(E,'		if i < len(masks) {\n			mask = masks[i]\n		}','		for _, it := range masks {\n			if last := cmd.LastCmdNode(); last != nil && it.Cmd == last.DisplayPath() {\n				mask = it\n				break\n			}\n		}')],
  demo='''
script cnt "help = c" 'echo x >> "'$D'/count"'
script once "help = o" 'test -e "'$D'/second" || { touch "'$D'/second"; exit 1; }'
loadmods
T cnt : once : cnt >/dev/null 2>&1 && fail "first run should fail"
[ "$(wc -l < "$D/count")" -eq 1 ] || fail "setup"
T sessions.last.retry >/dev/null 2>&1 || fail "retry failed"
[ "$(wc -l < "$D/count")" -eq 2 ] || fail "after the retry the last command ran $(wc -l < "$D/count") times instead of 2"
''', needs='retrying a flow that contains the same command before and after the point of failure', breaks='the second occurrence takes the mask of the first and is skipped'),
 dict(id='c04-depends-env', prop='C04',
  edits=[(E,'	deps := model.Depends{}\n	env = env.Clone()\n','	deps := model.Depends{}\n'),('pkg/core/model/dep.go','collectDepends(cc, env.Clone(), flow','collectDepends(cc, env, flow')],
  demo='''
script show "help = s" 'echo "KEPT=$(grep -c zz.key "$1/env")"'
loadmods
out=$(T show : env.set key=zz.key value=1 2>&1) || fail "base run: $out"
case "$out" in *KEPT=0*) ;; *) fail "the value is there before the setting command ran";; esac
''', needs='two sites: the caller does not copy and the collector does not either; a flow with a command that edits the environment', breaks='collecting the os dependencies of a flow changes the session environment it is about to run with'),
 dict(id='c05-wait-only-if-ok', prop='C05',
  edits=[(E,'	if env.GetBool("sys.bg.wait") {\n		errs','	if ok && env.GetBool("sys.bg.wait") {\n		errs')],
  demo='''
script slow "help = s" 'sleep 1; touch "'$D'/finished"'
loadmods
T slow %delay=1ms : noop >/dev/null 2>&1 || fail "plain background run"
[ -e "$D/finished" ] || fail "not awaited"
rm "$D/finished"
T slow %delay=1ms : dbg.error >/dev/null 2>&1 && fail "exit status"
[ -e "$D/finished" ] || fail "background command killed because another command failed"
''', needs='a background command still running when the foreground fails', breaks='the run ends without waiting for its background commands'),
 dict(id='c06-notify-locked', prop='C06',
  edits=[(M,'	self.lock.Lock()\n	self.info.Finished = true\n	self.info.Err = err\n	self.lock.Unlock()\n','	self.lock.Lock()\n	defer self.lock.Unlock()\n	self.info.Finished = true\n	self.info.Err = err\n')],
  demo='''
timeout 20 "$D/ticat" noop %delay=1ms : sleep 1s : noop </dev/null >/dev/null 2>&1 || fail "a foreground command after a finished background one hangs"
''', needs='a background command that finishes while the foreground still has commands to show', breaks='the foreground hangs on the lock of the finished task'),
]
