F='pkg/mods/builtin/flow.go'; S='pkg/mods/builtin/env_snapshot.go'
SEEDS=[
 dict(id='c10-save-taken-abbr', prop='C10',
  edits=[(F,'	} else if cmdExists {\n		display.PrintErrTitle','	} else if cmdExists && len(help) == 0 {\n		display.PrintErrTitle')],
  demo=r'''
script mycmd "help = h" "echo ok"
loadmods
T dummy : flow.save cmd=mycmd help=x </dev/null >/dev/null 2>&1
[ -e "$D/ticat.data/flows/mycmd.tiflow" ] && fail "a flow was saved under the name of another command"
true
''', needs='flow.save with a help text under the name of an existing command that is not a flow', breaks='a flow takes the name of another command'),
 dict(id='c10-clear-other-files', prop='C10',
  edits=[(F,'if path != root && strings.HasSuffix(path, flowExt) {','if path != root && strings.Contains(filepath.Base(path), flowExt) {')],
  demo=r'''
T dummy : flow.save a1 </dev/null >/dev/null 2>&1
[ -e "$D/ticat.data/flows/a1.tiflow" ] || fail "not saved"
echo keep > "$D/ticat.data/flows/a1.tiflow.bak"
T flow.clear >/dev/null 2>&1
[ -e "$D/ticat.data/flows/a1.tiflow" ] && fail "not cleared"
[ -e "$D/ticat.data/flows/a1.tiflow.bak" ] || fail "a file that is no flow was removed"
true
''', needs='a file in the flows directory whose name contains the flow extension but does not end with it', breaks='clearing the flows removes files that are no flows'),
 dict(id='c10-snapshot-dir-check', prop='C10',
  edits=[(S,'	if !overwrite && fileExists(path) {','	if !overwrite && fileExists(strings.TrimSuffix(path, filepath.Ext(path))) {')],
  demo=r'''
T {k1=v1} : env.snapshot.save snap1 </dev/null >/dev/null 2>&1
f=$(find "$D/ticat.data" -name 'snap1*' | head -1)
[ -n "$f" ] || fail "no snapshot"
grep -q k1 "$f" || fail "no k1"
T {k2=v2} : env.snapshot.save name=snap1 overwrite=false </dev/null >/dev/null 2>&1
grep -q k1 "$f" || fail "the snapshot was overwritten"
true
''', needs='env.snapshot.save overwrite=false under a name that exists', breaks='an existing snapshot is overwritten although that was forbidden'),
]
