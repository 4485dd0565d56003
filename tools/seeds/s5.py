H='pkg/mods/builtin/hub.go'; M='pkg/mods/persist/hub_meta/hub_meta.go'
SEEDS=[
 dict(id='c11-exact-match-rest', prop='C11',
  edits=[(M,'return []RepoInfo{info}, append(infos[:i], infos[i+1:]...)','return []RepoInfo{info}, append(rest, infos[i+1:]...)')],
  demo=r'''
f="$D/ticat.data/hub/repos.hub"
mkdir -p "$D/r/a" "$D/r/ab"
printf 'git@x/ab\tgit@x/ab\t%s\t\ton\ngit@x/a\tgit@x/a\t%s\t\ton\n' "$D/r/ab" "$D/r/a" > "$f"
T hub.disable git@x/a >/dev/null 2>&1 || fail "disable"
grep -q '^git@x/a	.*disabled' "$f" || fail "not disabled"
grep -q '^git@x/ab	' "$f" || fail "another repo is missing from the list"
''', needs='a repo named by its exact address, listed after one whose address contains it', breaks='the repos that matched before the exact one disappear from the list'),
 dict(id='c11-readd-disabled', prop='C11',
  edits=[(H,'		if info.Path == path {\n			if info.OnOff == "on" {','		if info.OnOff != "on" && !info.IsLocal() {\n			continue\n		}\n		if info.Path == path && (info.OnOff == "on" || i > 0) {\n			if info.OnOff == "on" {')],
  demo=r'''
f="$D/ticat.data/hub/repos.hub"
mkdir "$D/d1" "$D/d2"
T hub.add.local path="$D/d1" >/dev/null 2>&1; T hub.add.local path="$D/d2" >/dev/null 2>&1
T hub.disable "$D/d1" >/dev/null 2>&1; T hub.disable "$D/d2" >/dev/null 2>&1
T hub.add.local path="$D/d1" >/dev/null 2>&1 || fail "add"
T hub.add.local path="$D/d2" >/dev/null 2>&1 || fail "add"
[ "$(wc -l < "$f")" -eq 2 ] || fail "a directory is listed twice"
''', needs='adding again a disabled directory that is the first of the list', breaks='the directory is listed twice, once enabled and once disabled'),
]
