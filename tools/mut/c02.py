import sys; sys.path.insert(0,'/tmp/mut')
from m import batch
C='pkg/core/model/cmd.go'; T='pkg/core/execute/cmd_type.go'; E='pkg/core/execute/executor.go'; O='pkg/core/model/env_ops.go'; D='pkg/core/model/dep.go'; B='pkg/mods/builtin/builtin.go'
batch([
 ('env check moved','C02',E,'if !flow.TailModeCall && !verifyEnvOps(cc, flow, env) {','if !flow.HasTailMode && !verifyEnvOps(cc, flow, env) {'),
 ('allow list last cmd','C02',T,'	last := flow.Cmds[0].LastCmd()\n	if last == nil {\n		return false\n	}\n	// This','	last := flow.Last().LastCmd()\n	if last == nil {\n		return false\n	}\n	// This'),
 ('allow more','C02',T,'builtin.DumpFlowAll,','builtin.DumpFlowAll,\n\t\tbuiltin.DumpCmdUsage,'),
 ('dep ignore','C02',E,'firstCmd = flow.Cmds[0].LastCmd()','firstCmd = flow.Cmds[len(flow.Cmds)-1].LastCmd()'),
 ('parse tailmode','C02',T,'return flow.Cmds[0].ParseResult.Error == nil','return true'),
 ('parse tailmode2','C02',T,'return flow.Cmds[0].ParseResult.Error == nil','return flow.Cmds[len(flow.Cmds)-1].ParseResult.Error == nil'),
 ('no sub env','C02',O,'HasSubFlow(true)','HasSubFlow(false)'),
 ('no sub dep','C02',D,'HasSubFlow(true)','HasSubFlow(false)'),
 ('ignoredeps reg','C02',B,'		RegPowerCmd(DumpCmdUsage,\n			"display command usage").','		RegPowerCmd(DumpCmdUsage,\n			"display command usage").\n\t\tSetIgnoreFollowingDeps().'),
 ('result len','C02',E,'len(result) == 0','len(result) <= 1'),
])
