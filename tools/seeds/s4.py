S='pkg/core/model/session.go'; U='pkg/utils/misc.go'
MK=r'''
mks() { # a session as a run would have left it: name
  mkdir -p "$D/ticat.data/sessions/$1" && cp "$st" "$D/ticat.data/sessions/$1/status"; }
deadpid() { sh -c 'echo $$'; }
T echo hi >/dev/null 2>&1
'''
SEEDS=[
 dict(id='c09-local-time', prop='C09',
  edits=[(S,'time.ParseInLocation(SessionDirTimeFormat, fields[0], time.Local)','time.Parse(SessionDirTimeFormat, fields[0])')],
  demo=r'''
export TZ=Pacific/Pago_Pago
p=$(sh -c 'echo $$')
keep=2400
s="$(date -d "-$((keep-2)) hours" +%Y%m%d-%H%M%S).$p"
mkdir -p "$D/ticat.data/sessions/$s"
T dummy : dummy >/dev/null 2>&1 || fail "run"
[ -d "$D/ticat.data/sessions/$s" ] || fail "a session younger than ${keep}h is removed at the start of another"
''', needs='a local time zone west of Greenwich and a session nearly as old as sessions are kept', breaks='start times of sessions are read as UTC, so sessions are removed hours too early'),
 dict(id='c09-unsure-is-gone', prop='C09',
  edits=[(U,'''	switch errno {
	case syscall.ESRCH:
		return false, nil
	case syscall.EPERM:
		return true, nil
	}
	return false, err''','''	return errno != syscall.ESRCH && errno != syscall.EPERM, nil''')],
  demo=r'''
chmod 755 "$D"; chmod -R a+rX "$D"
setpriv --reuid=65534 --regid=65534 --clear-groups true 2>/dev/null || exit 0
sleep 60 & p=$!
mkdir -p "$D/ticat.data/sessions"; 
s="$(date +%Y%m%d-%H%M%S).$p"
mkdir "$D/ticat.data/sessions/$s"
chown -R 65534:65534 "$D"
HOME="$D/home" timeout 60 setpriv --reuid=65534 --regid=65534 --clear-groups "$D/ticat" sessions.remove.all </dev/null >/dev/null 2>&1
kill $p
[ -d "$D/ticat.data/sessions/$s" ] || fail "a running session of another user is removed"
''', needs='clearing sessions while one runs as another user', breaks='a process which may not be signalled is taken for gone'),
 dict(id='c09-id-prefix', prop='C09',
  edits=[(S,'dir != mustMatchDirName {','!strings.HasPrefix(dir, mustMatchDirName) {')],
  demo=r'''
script fails "help = x" 'exit 1'
loadmods
T fails >/dev/null 2>&1
a=$(ls "$D/ticat.data/sessions" | head -1)
[ -n "$a" ] || fail "no session"
sleep 1.1
T sessions.remove session-id="${a%%.*}" >/dev/null 2>&1
[ -d "$D/ticat.data/sessions/$a" ] || fail "a part of an id removes a session"
''', needs='an id that is the beginning of that of a session', breaks='sessions which were not asked for are removed'),
]
