F='pkg/core/model/flow.go'; PR='pkg/core/model/proto.go'; DP='pkg/cli/display/dep.go'; DF='pkg/cli/display/flow.go'
SEEDS=[
 dict(id='c17-flow-arg-order', prop='C17',
  edits=[(F,'	sort.Strings(keys)\n\n	prefix := strings','	if !isAllArgs || !useArgsFmt {\n		sort.Strings(keys)\n	}\n\n	prefix := strings')],
  demo=r'''
script six "help = h
[arg]
aa = 0
bb = 0
cc = 0
dd = 0
ee = 0
ff = 0" 'echo "$@"'
loadmods
for i in 1 2 3 4 5 6 7 8; do
  T six ff=6 ee=5 dd=4 cc=3 bb=2 aa=1 : flow.save cmd=s$i help=x >"$D/out" 2>&1
  grep -a six "$D/ticat.data/flows/s$i.tiflow" >> "$D/lines" || fail "no flow saved: $(ls -R "$D/ticat.data/flows")"
done
[ "$(sort -u "$D/lines" | wc -l)" = 1 ] || fail "the same flow is saved in different ways: $(sort -u "$D/lines" | head -3)"
true
''', needs='a saved command with several args and no other settings', breaks='saving the same flow gives a different file each time'),
 dict(id='c17-env-file-order', prop='C17',
  edits=[(PR,'''	var keys []string
	for k, v := range flatten {
		if skipDefault && defEnv.GetRaw(k) == v {
			continue
		}
		keys = append(keys, k)
	}

	sort.Strings(keys)
''','''	var keys []string
	for k, v := range flatten {
		if skipDefault && defEnv.GetRaw(k) == v {
			continue
		}
		keys = append(keys, k)
	}

	sort.SliceStable(keys, func(i, j int) bool {
		return strings.Split(keys[i], ".")[0] < strings.Split(keys[j], ".")[0]
	})
''')],
  demo=r'''
loadmods
for i in 1 2 3 4 5 6 7 8; do
  T env.set zz.a 1 : env.set zz.b 2 : env.set zz.c 3 : env.set zz.d 4 : env.set zz.e 5 : env.save >"$D/out" 2>&1 || fail "saving failed: $(tail -3 "$D/out")"
  grep -a '^zz' "$D/ticat.data/bootstrap.env" | tr '\n' ' ' >> "$D/lines"; echo >> "$D/lines"
done
grep -q zz.a "$D/lines" || fail "nothing saved"
[ "$(sort -u "$D/lines" | wc -l)" = 1 ] || fail "the saved env differs from run to run: $(sort -u "$D/lines" | head -3)"
true
''', needs='several saved keys of one group (the part before the first dot)', breaks='the order of the keys in the env file differs from run to run'),
 dict(id='c17-missed-os-commands', prop='C17',
  edits=[(DP,'''		osCmds = append(osCmds, osCmd)
	}
	sort.Strings(osCmds)
	return''','''		osCmds = append(osCmds, osCmd)
	}
	if missedOsCmds == 0 {
		sort.Strings(osCmds)
	}
	return''')],
  demo=r'''
script needy "help = h
[dep]
nope-aa = a
nope-bb = b
nope-cc = c
nope-dd = d
nope-ee = e" 'echo ran'
loadmods
for i in 1 2 3 4 5 6 7 8; do
  T needy >"$D/out" 2>&1
  grep -ao '\[nope-[a-e]*\]' "$D/out" | tr '\n' ' ' >> "$D/lines"; echo >> "$D/lines"
done
grep -q nope-cc "$D/lines" || fail "demo broken: $(tail -5 "$D/out")"
[ "$(sort -u "$D/lines" | wc -l)" = 1 ] || fail "the missing programs are listed in a different order each time: $(sort -u "$D/lines" | head -3)"
true
''', needs='a flow that needs several programs which are not installed', breaks='the list of missing programs differs from run to run'),
 dict(id='c17-modified-env-display', prop='C17',
  edits=[(DF,'''	for k, v := range finishEnv {
		_, ok := startEnv[k]''','''	sort.Strings(lines)
	for k, v := range finishEnv {
		_, ok := startEnv[k]'''),(DF,'''	sort.Strings(lines)
	if !args.Skeleton {''','''	if !args.Skeleton {''')],
  demo=r'''
printf 'echo zz.aa=1 >> "$1/env"\necho zz.bb=1 >> "$1/env"\necho zz.cc=1 >> "$1/env"\necho zz.dd=1 >> "$1/env"\necho zz.ee=1 >> "$1/env"\n' > "$D/mods/adds.sh"
printf 'help = h\n' > "$D/mods/adds.sh.ticat"
loadmods
T adds : dummy >"$D/out" 2>&1 || fail "demo broken: $(tail -3 "$D/out")"
for i in 1 2 3 4 5 6 7 8; do
  T sessions.last.desc.full >"$D/out" 2>&1
  grep -ao 'zz\.[a-e]*' "$D/out" | tr '\n' ' ' >> "$D/lines"; echo >> "$D/lines"
done
grep -q zz.cc "$D/lines" || fail "demo broken: $(tail -25 "$D/out")"
[ "$(sort -u "$D/lines" | wc -l)" = 1 ] || fail "the keys a command added are shown in a different order each time: $(sort -u "$D/lines" | head -3)"
true
''', needs='a recorded command that added several keys, shown in full', breaks='the list of modified keys differs each time it is shown'),
]
