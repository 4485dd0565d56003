SQ='pkg/core/parser/sequence.go'; MF='pkg/mods/persist/meta_file/meta_file.go'; X='pkg/core/model/executed.go'; MI='pkg/utils/misc.go'; DF='pkg/cli/display/flow.go'; EP='pkg/core/parser/env.go'; CP='pkg/core/parser/cmd.go'
NB='''
nb() { grep -q "out of range" "$D/out" && fail "$1: $(grep "out of range" "$D/out" | head -2)"; true; }
'''
SEEDS=[
 dict(id='c15-empty-value-lines', prop='C15',
  edits=[(MF,'	for len(res) > 0 && len(res[len(res)-1]) == 0 {','	for len(res[len(res)-1]) == 0 {')],
  demo=NB+r'''
printf 'help = h\nflow = dummy\n' > "$D/mods/good.ticat"
loadmods
T good >"$D/out" 2>&1 || fail "a flow module fails: $(tail -3 "$D/out")"
printf 'help = h\nflow =\n' > "$D/mods/empty.ticat"
T dummy >"$D/out" 2>&1
nb "ticat crashed with a module whose flow is empty"
true
''', needs="a module (or saved flow) with a flow key which is empty", breaks='every ticat run crashes while loading that module'),
 dict(id='c15-status-env-line', prop='C15',
  edits=[(X,'		if i <= 0 {\n			panic(fmt.Errorf("[ParseExecutedFlow] bad format of env line','		if i == 0 {\n			panic(fmt.Errorf("[ParseExecutedFlow] bad format of env line')],
  demo=NB+r'''
script setk "help = h" 'echo "k1=v1" >> "$1/env"'
loadmods
T setk : dummy >"$D/out" 2>&1 || fail "setk failed: $(tail -3 "$D/out")"
S=$(ls -d "$D"/ticat.data/sessions/*/ | tail -1)
grep -q "k1=v1" "$S/status" || fail "demo broken: $(cat "$S/status")"
sed -i 's/k1=v1/k1 v1/' "$S/status"
T sessions.last.desc.more >"$D/out" 2>&1
nb "a damaged env line in the record of a session"
true
''', needs='the record of a session with a damaged env line (no =)', breaks='showing sessions crashes instead of naming the damaged line'),

 dict(id='c15-hub-line-short', prop='C15',
  edits=[('pkg/mods/persist/hub_meta/hub_meta.go','		if len(fields) != 5 {','		if len(fields) < 4 || len(fields) > 5 {')],
  demo=NB+"""
loadmods
sed -i 's/\\t[^\\t]*$//' "$D/ticat.data/hub/repos.hub"
T dummy >"$D/out" 2>&1
nb "a line without its last column in the hub list"
true
""", needs='a line of the hub list which lost its last column', breaks='every ticat run crashes instead of naming the line'),
 dict(id='c15-blank-env-line', prop='C15',
  edits=[('pkg/core/model/proto.go','		if i < 0 {\n			return fmt.Errorf("[EnvInput]','		if i < 0 && len(text) != 0 {\n			return fmt.Errorf("[EnvInput]')],
  demo=NB+"""
script setk "help = h" 'echo "k1=v1" >> "$1/env"; echo >> "$1/env"'
loadmods
T setk : dummy >"$D/out" 2>&1
nb "a script wrote an empty line to the env file"
true
""", needs='a script which writes an empty line to the env file', breaks='ticat crashes when it reads the env back'),
]
