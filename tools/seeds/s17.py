B='pkg/core/model/bg_tasks.go'; H='pkg/mods/builtin/hub.go'
SEEDS=[
dict(id='c05-cut-front', prop='C05', edits=[(B,"self.tids = append(append([]string{}, self.tids[:i]...), self.tids[i+1:]...)","self.tids = self.tids[i+1:]")],
 demo=r'''
script slow 'help = s' "sleep 1; echo done > $D/slow.done"
script quick 'help = q' 'echo quick'
loadmods
T slow %delay=1ms : quick %delay=1ms : bg.wait.last >/dev/null
[ -f $D/slow.done ] || fail "the run ended before its background command"
''', needs='waiting for the latest of two background commands', breaks='the earlier one is dropped from the list and never waited for'),
dict(id='c11-disable-drops', prop='C11', edits=[(H,"	meta.WriteReposInfoFile(hubDir, metaPath, append(rest, extracted...), fieldSep)\n\n	if count > 0 {\n		display.PrintTipTitle(cc.Screen, env,\n			\"need two","	if count > 1 {\n		rest = rest[:0]\n	}\n	meta.WriteReposInfoFile(hubDir, metaPath, append(rest, extracted...), fieldSep)\n\n	if count > 0 {\n		display.PrintTipTitle(cc.Screen, env,\n			\"need two")],
 demo=r'''
mkdir -p $D/m1/x1 $D/m2/x1 $D/other
echo 'echo a' > $D/m1/aa.sh; echo 'help = a' > $D/m1/aa.sh.ticat
for d in $D/m1 $D/m2 $D/other; do T hub.add.local $d >/dev/null; done
[ "$(grep -c . $D/ticat.data/hub/repos.hub)" -ge 3 ] || exit 0
T hub.disable "$D/m" >/dev/null
grep -q "$D/other" $D/ticat.data/hub/repos.hub || fail "a dir that was not asked for is gone from the hub"
grep -q "$D/m1" $D/ticat.data/hub/repos.hub || fail "a disabled dir is gone from the hub"
''', needs='disabling two dirs at once while a third is in the hub', breaks='the dirs that were not asked for are lost from the list'),
]
