O='pkg/core/model/env_ops.go'; X='pkg/core/model/executed.go'
SEEDS=[
dict(id='c02-last-result', prop='C02', edits=[(O,"		*result = append(*result, res...)","		*result = res")],
 demo=r'''
script rd1 'help = r
[env]
kk.a = read' 'echo ran-rd1'
script wr1 'help = w
[env]
kk.b = write' 'echo ran-wr1'
loadmods
if T rd1 : wr1 | grep -a -q 'ran-'; then fail "a flow runs although a key it reads is not provided"; fi
if T wr1 : rd1 | grep -a -q 'ran-'; then fail "a flow runs although a key it reads is not provided (last)"; fi
''', needs='a flow whose unsatisfied command is followed by a satisfied one', breaks='only what the last command of a flow lacks is found'),
dict(id='c02-own-write', prop='C02', edits=[(O,"	for i, key := range keys {\n		for _, curr","	for _, written := range ops.AllWriteKeys() {\n		self.SetKeyWritten(written)\n	}\n	for i, key := range keys {\n		for _, curr")],
 demo=r'''
script rw1 'help = w
[env]
kk.c = read : write' 'echo ran-rw1'
loadmods
if T rw1 | grep -a -q 'ran-'; then fail "a command runs although the key it reads before it writes it is not provided"; fi
''', needs='a command that reads a key and then writes it', breaks='the key counts as written before it is read'),
dict(id='c07-last-eq', prop='C07', edits=[(X,'''i := strings.Index(line, "=")''','''i := strings.LastIndex(line, "=")''')],
 demo=r'''
script wr2 'help = w' 'echo ran-wr2'
loadmods
T '{ee=a=b=c}' wr2 >/dev/null
T sessions.last.desc.full | grep -a -q 'ee = a=b=c' || fail "the recorded value of a key is not read back"
''', needs="an environment value that contains '='", breaks='the recorded environment is read back with another key and value'),
]
