
C='pkg/core/model/cmds.go'; E='pkg/core/model/errs.go'; R='pkg/mods/persist/mod_meta/mod_reg.go'; M='pkg/mods/builtin/mod.go'
SEEDS=[
 dict(id='c12-empty-help-replaced', prop='C12',
  edits=[(C,'	if self.cmd != nil && self.cmd.IsTotallyEmpty() {','	if self.cmd != nil && (self.cmd.IsTotallyEmpty() || len(self.source) != 0 && len(self.cmd.Help()) == 0) {')],
  demo=r'''
mkdir -p "$D/m1" "$D/m2"
printf 'flow = echo first-one\n' > "$D/m1/both.ticat"
printf 'flow = echo second-one\n' > "$D/m2/both.ticat"
T hub.add.local path="$D/m1" >/dev/null 2>&1
T hub.add.local path="$D/m2" >/dev/null 2>&1
T both 2>&1 | grep -q 'second-one' && fail "the command of the other repo was replaced"
true
''', needs='two repos with a command of the same path, the first without a help string', breaks='a registered command is silently replaced by one of another repo'),
 dict(id='c12-conflict-list-reset', prop='C12',
  edits=[(E,'	list := conflictedMap[source]\n','	list := conflictedMap[file]\n')],
  demo=r'''
mkdir -p "$D/m1" "$D/m2"
for n in aaa bbb; do
 printf 'help = h\nflow = dummy\n' > "$D/m1/$n.ticat"
 printf 'help = h\nflow = dummy\n' > "$D/m2/$n.ticat"
done
T hub.add.local path="$D/m1" >/dev/null 2>&1
T hub.add.local path="$D/m2" >/dev/null 2>&1
out=$(T dummy 2>&1)
echo "$out" | grep -q aaa || fail "the conflict of aaa is not shown"
echo "$out" | grep -q bbb || fail "the conflict of bbb is not shown"
true
''', needs='two repos with two conflicting commands', breaks='of several failures of one repo only the last is shown'),
 dict(id='c12-stat-error-ends-walk', prop='C12',
  edits=[(M,'		} else if err == nil {\n			isDir = info.IsDir()\n		}\n','		} else if err != nil {\n			return err\n		} else {\n			isDir = info.IsDir()\n		}\n')],
  demo=r'''
script zlast "help = h" "echo last-runs"
loadmods
ln -s self-loop "$D/mods/aloop"; ln -sf aloop "$D/mods/self-loop"
rm -f "$D/mods/aloop"; ln -s aloop "$D/mods/aloop"
printf 'help = h\n' > "$D/mods/aloop.ticat"
T zlast 2>&1 | grep -q last-runs || fail "a module after an unreadable one was not loaded"
true
''', needs='a module whose target can not be examined (a link to itself)', breaks='the modules after it in the directory are not loaded'),
]
