from m import batch
S='pkg/core/model/session.go'; U='pkg/utils/misc.go'; B='pkg/mods/builtin/sessions.go'; R='pkg/mods/builtin/builtin.go'
batch([
('all: not running check dropped','C09',S,'if !running {\n\t\t\terr = os.RemoveAll','if !running || len(dirs) > 3 {\n\t\t\terr = os.RemoveAll'),
('one: or','C09',S,'if running && !force {','if running && force {'),
('init: EPERM counts as gone','C09',S,'if !(err != nil && err == syscall.ESRCH) {','if err == nil {'),
('init: age after','C09',S,'if added.Before(now)','if added.After(now)'),
('init: age dropped','C09',S,'if added.Before(now)','if now.Before(now.Add(keepDur)) || added.Before(now)'),
('init: and to or','C09',S,'if added.Before(now)','if err == syscall.ESRCH || added.Before(now)'),
('all: parse unchecked','C09',S,'''		oldSessionPid, _, ok := parseSessionDirName(dir.Name())
		if !ok {
			continue
		}
''','''		oldSessionPid, _, _ := parseSessionDirName(dir.Name())
'''),
('parse pid err ignored','C09',S,'''	if err != nil {
		return
	}
	return pid, startTs, true''','''	return pid, startTs, err == nil || len(fields[1]) > 0'''),
('EPERM false','C09',U,'''	case syscall.EPERM:
		return true, nil''','''	case syscall.EPERM:
		return false, nil'''),
('err ignored','C09',U,'if err == nil && !exists {','_ = err\n\tif !exists {'),
('list id dropped','C09',S,'if len(mustMatchDirName) != 0 && dir != mustMatchDirName {','if len(mustMatchDirName) != 0 && !strings.HasSuffix(dir, mustMatchDirName) {'),
('match dropped','C09',S,'if !status.MatchFind(findStrs) {','if !status.MatchFind(findStrs) && len(findStrs) > 1 {'),
('default true','C09',R,'AddArg("remove-running", "false", "force")','AddArg("remove-running", "true", "force")',1),
('force hard','C09',B,'removeAndDumpSession(it, cc.Screen, env, force)','removeAndDumpSession(it, cc.Screen, env, len(sessions) == 1 || force)'),
('clean root','C09',S,'''	sessionDir := filepath.Join(sessionsRoot, session.DirName)
''','''	sessionDir := filepath.Join(sessionsRoot)
'''),
('pid other','C09',S,'session := SessionStatus{dir, oldSessionPid,','session := SessionStatus{dir, os.Getppid(),'),
('fix reverted','C09',B,'''		if len(id) == 0 {
			panic(fmt.Errorf("session id '%s' is empty", rawId))
		}
''',''),
('checked other pid','C09',S,'running := utils.IsPidRunning(oldSessionPid)\n\t\tif !running','running := utils.IsPidRunning(oldSessionPid + 1)\n\t\tif !running'),
# behaviour preserving
('OK now in-line','C09',S,'''	_, now, id := GenSessionId()
	dirName := id
''','''	_, _, id := GenSessionId()
	now := time.Now()
	dirName := id
'''),
('OK after','C09',S,'if added.Before(now)','if now.After(added)'),
('OK since','C09',S,'''		added := oldSessionStartTs.Add(keepDur)
		if added.Before(now)''','''		if now.Sub(oldSessionStartTs) > keepDur'''),
('OK kill early','C09',S,'''		if !(err != nil && err == syscall.ESRCH) {''','''		gone := err == syscall.ESRCH
		if !gone {'''),
('OK isrunning','C09',S,'''		err = syscall.Kill(oldSessionPid, syscall.Signal(0))
		if !(err != nil && err == syscall.ESRCH) {''','''		if utils.IsPidRunning(oldSessionPid) {'''),
('OK errors.Is','C09',U,'err.Error() == "os: process already finished"','errors.Is(err, os.ErrProcessDone)'),
('OK index loop','C09',S,'''	for _, dir := range dirs {
		oldSessionPid, _, ok''','''	for i := 0; i < len(dirs); i++ {
		dir := dirs[i]
		oldSessionPid, _, ok'''),
('OK name var','C09',S,'''	for _, dir := range dirs {
		oldSessionPid, _, ok := parseSessionDirName(dir.Name())''','''	for _, dir := range dirs {
		name := dir.Name()
		oldSessionPid, _, ok := parseSessionDirName(name)'''),
('OK helper','C09',S,'''			err = os.RemoveAll(filepath.Join(sessionsRoot, dir.Name()))
			if err == nil {''','''			err = rmSession(sessionsRoot, dir.Name())
			if err == nil {'''),
])
