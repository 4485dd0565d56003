import sys; sys.path.insert(0,'/tmp/mut')
from m import batch
C='pkg/core/model/cmd.go'; X='pkg/core/model/cli.go'; E='pkg/core/execute/executor.go'; O='pkg/core/model/env_ops.go'
batch([
 ('CheckEnvOps noclone','C04',O,'checkEnvOps(cc, flow, env.Clone(),','checkEnvOps(cc, flow, env,'),
 ('DumpFlowEx noclone','C04','pkg/cli/display/flow.go','	env = env.Clone()\n','	\n'),
 ('depends noclone','C04','pkg/core/model/dep.go','env.Clone()','env'),
 ('async env','C04',E,'asyncCC, cmdEnv.Clone(), mask','asyncCC, cmdEnv, mask'),
 ('async env2','C04',E,'asyncCC, cmdEnv.Clone(), mask','asyncCC, env, mask'),
 ('async flow','C04',E,'mask, flow.CloneOne(currCmdIdx), 0)','mask, flow, currCmdIdx)'),
 ('async cc','C04',E,'asyncCC := cc.CloneForAsyncExecuting(cmdEnv)','asyncCC := cc.CopyForInteract()'),
 ('tol','C04',X,'		NewTolerableErrs(),\n		self.Exec','		self.TolerableErrs,\n		self.Exec'),
 ('bp','C04',X,'		nil,\n		NewBreakPoints(),\n		HandledErrors{},\n		self.ForestMode.Clone(','		nil,\n		self.BreakPoints,\n		HandledErrors{},\n		self.ForestMode.Clone('),
 ('forest','C04',X,'self.ForestMode.Clone()','self.ForestMode'),
 ('forest clone','C04','pkg/core/model/forest.go','return &ForestMode{stack}','_ = stack\n	return &ForestMode{self.stack[:len(self.stack)]}'),
 ('blender clone','C04','pkg/core/model/blender.go','	return &Blender{\n		invokers,','	_ = invokers\n	return &Blender{\n		self.invokers,'),
 ('env clone map','C04','pkg/core/model/env.go','return &Env{pairs, parent, self.ty}','if len(pairs) > 100 {\n		return &Env{self.pairs, parent, self.ty}\n	}\n	return &Env{pairs, parent, self.ty}'),
 ('env clone parent','C04','pkg/core/model/env.go','parent = self.parent.Clone()','parent = self.parent\n		if self.ty != EnvLayerSession {\n			parent = self.parent.Clone()\n		}'),
 ('forcheck','C04',C,'	if forChecking {\n		cc = cc.CloneForChecking()','	if forChecking && self.ty == CmdTypeFlow {\n		cc = cc.CloneForChecking()'),
 ('forcheck arg','C04','pkg/core/model/dep.go','true)','false)',0),
 ('isblender','C04','pkg/core/model/blender.go','cic.IsBlenderCmd()','(cic.IsBlenderCmd() || cic.IsQuiet())'),
 ('dumpenv','C04','pkg/mods/builtin/dump_env.go','	return currCmdIdx, true','	env.Set("x", "1")\n	return currCmdIdx, true'),
 ('desc rm','C04','pkg/mods/builtin/sessions.go','func descSession(','func zz(d string) { os.RemoveAll(d) }\nfunc descSession('),
 ('bl env','C04','pkg/core/model/blender.go','env.Clone(), cc.Cmds.Strs.EnvValDelAllMark','env, cc.Cmds.Strs.EnvValDelAllMark'),
 ('screen','C04',X,'		screen,\n		self.Cmds','		self.Screen,\n		self.Cmds'),
 ('io','C04',X,'NewCmdIO(nil, bgStdout, bgStdout)','NewCmdIO(nil, self.CmdIO.CmdStdout, bgStdout)'),
 ('fakeapply','C04',E,'		env.Clone(), cc.Cmds.Strs.EnvValDelAllMark','		env, cc.Cmds.Strs.EnvValDelAllMark'),
])
