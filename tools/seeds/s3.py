P='pkg/core/model/proto.go'; H='pkg/mods/persist/hub_meta/hub_meta.go'; F='pkg/mods/persist/flow_file/flow_file.go'
SEEDS=[
 dict(id='c08-write-error', prop='C08',
  edits=[(P,'''		_, err := fmt.Fprintf(writer, "%s%s%s\\n", k, sep, v)
		if err != nil {
			return err
		}
''','''		fmt.Fprintf(writer, "%s%s%s\\n", k, sep, v)
''')],
  demo=r'''
T "{my.key=first}" : env.save >/dev/null 2>&1 || fail "save"
f="$D/ticat.data/bootstrap.env"
[ -f "$f" ] && grep -q my.key=first "$f" || fail "no env file"
ln -s /dev/full "$f.tmp"
T "{my.key=second}" : env.save >/dev/null 2>&1 && fail "a save on a full disk is reported as done"
grep -q my.key=first "$f" || fail "the saved env is lost by a failed save"
''', needs='a write error (full disk) while the environment is saved', breaks='the incomplete file replaces the saved environment and the failure is not reported'),
 dict(id='c08-repos-in-place', prop='C08',
  edits=[(H,'	tmp := path + ".tmp"\n	file, err := os.OpenFile(tmp, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)\n	if err != nil {\n		panic(fmt.Errorf("[WriteReposInfoFile] open file \'%s\' failed: %v", tmp, err))','	file, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)\n	if err != nil {\n		panic(fmt.Errorf("[WriteReposInfoFile] open file \'%s\' failed: %v", path, err))'),
   (H,'panic(fmt.Errorf("[WriteReposInfoFile] write file \'%s\' failed: %v", tmp, err))','panic(fmt.Errorf("[WriteReposInfoFile] write file \'%s\' failed: %v", path, err))'),
   (H,'''	file.Close()

	err = os.Rename(tmp, path)
	if err != nil {
		panic(fmt.Errorf("[WriteReposInfoFile] rename file '%s' to '%s' failed: %v",
			tmp, path, err))
	}
''','')],
  demo=r'''
n=0
for i in 1 2 3 4 5 6; do
  d="$D/m$i"; mkdir "$d"; printf 'help = %0900d\n' $i > "$d/hub.ticat"
  T hub.add.local path="$d" >/dev/null 2>&1 || fail "add $i"
done
f="$D/ticat.data/hub/repos.hub"
[ "$(wc -l < "$f")" -eq 6 ] || fail "setup"
mkdir "$D/m7"
( ulimit -f 4; T hub.add.local path="$D/m7" >/dev/null 2>&1 )
[ "$(wc -l < "$f")" -ge 6 ] || fail "the list of repos is lost by a save that was cut off"
''', needs='a save of the repo list that is cut off (file size limit, crash, full disk)', breaks='the list of repos is rewritten in place and the old list is lost'),
 dict(id='c08-hook-saved', prop='C08',
  edits=[(P,'		"sys.event.",\n','')],
  demo=r'''
T "{sys.event.hook.done=noop}" "{my.key=1}" : env.save >/dev/null 2>&1 || fail "save"
grep -rq my.key=1 "$D/ticat.data/bootstrap.env" || fail "not saved"
grep -rq sys.event "$D/ticat.data/bootstrap.env" && fail "an event hook of one run was saved and will run in every later one"
''', needs='saving the environment in a run that set an event hook', breaks='the hook is saved and runs in every later run'),
]
