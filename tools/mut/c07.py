import sys; sys.path.insert(0,'/tmp/mut')
from m import batch
W='pkg/core/model/executing.go'; R='pkg/core/model/executed.go'; C='pkg/core/model/cmd.go'; X='pkg/core/execute/executor.go'
import sys as _s
batch([x for x in [
 ('swap result/time','C07',W,'''	buf.Write([]byte(markedOneLineContent("flow-result", self.level, string(result))))

	self.level -= 1''','''	self.level -= 1
	buf.Write([]byte(markedOneLineContent("flow-result", self.level, string(result))))
'''),
 ('log after env','C07',W,'''	if len(logFilePath) != 0 {
		buf.Write([]byte(markedOneLineContent("log", self.level, logFilePath)))
	}

	writeCmdEnv(buf, env, "env-start", self.level)
''','''	writeCmdEnv(buf, env, "env-start", self.level)

	if len(logFilePath) != 0 {
		buf.Write([]byte(markedOneLineContent("log", self.level, logFilePath)))
	}
'''),
 ('error before result','C07',R,'"error", level)','"error", level+1)'),
 ('skip as succ','C07',W,'			result = ExecutedResultSkipped\n','			result = ExecutedResultSucceeded\n'),
 ('sub not opened','C07',C,'cli.FlowStatus.OnSubFlowStart(','_ = (',0),
 ('nil on short','C07',R,'			if len(lines) != 0 {\n				return cmds','			if len(lines) != 1 {\n				return cmds'),
 ('drop lastcmd','C07',R,'		if cmd != nil {\n			cmds','		if cmd != nil && ok {\n			cmds'),
 ('level','C07',R,'path, subflowLines, level+1)','path, subflowLines, level)'),
 ('trunc','C07',W,'os.O_RDWR|os.O_CREATE|os.O_APPEND','os.O_RDWR|os.O_CREATE'),
 ('utc','C07',W,'now := time.Now().Format','now := time.Now().UTC().Format',3),
 ('default res','C07',W,'	result := ExecutedResultError\n	now','	result := ExecutedResultSucceeded\n	now'),
 ('unwritten','C07',W,'		buf.Write([]byte(markedContent("error", self.level, errLines...)))\n	}\n\n	writeStatus','		buf.Write([]byte(markedContent("error", self.level, errLines...)))\n		return\n	}\n\n	writeStatus'),
 ('oneline env','C07',R,'"env-finish", level)','"env-start", level)'),
 ('tid dropped','C07',R,'	cmd.SubFlow = subflow\n',''),
 ('run end true','C07',X,'OnFlowFinish(env, ','OnFlowFinish(env, true || '),
 ('finish only if ok','C07',X,'	if cli.FlowStatus != nil {\n		cli.FlowStatus.OnFlowFinish','	if ok && cli.FlowStatus != nil {\n		cli.FlowStatus.OnFlowFinish'),
 ('starts finishes ','C07',R,'	cmd.FinishTs, lines, ok = parseMarkedTime(path, lines, "cmd-finish-time", level)\n	if !ok {\n		return cmd, lines, lastActiveTs, false','	cmd.FinishTs, lines, ok = parseMarkedTime(path, lines, "cmd-finish-time", level)\n	if !ok {\n		return nil, lines, lastActiveTs, false'),
 ] if len(_s.argv)<2 or any(a in x[0] for a in _s.argv[1:])])
