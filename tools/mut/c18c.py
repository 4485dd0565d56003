from m import batch
M='pkg/core/model/'
P='C18'
batch([
('flow-args',P,M+'cmd.go','self.Flow(argv, cc, env, false, false)','self.Flow(ArgVals{}, cc, env, false, false)'),
('flow-allow',P,M+'cmd.go','self.Flow(argv, cc, env, false, false)','self.Flow(argv, cc, env, true, false)'),
('flow-allow2',P,M+'cmd.go','"flow", self, argv, env, allowFlowTemplateRenderError)','"flow", self, argv, env, allowFlowTemplateRenderError || !macrosFullyRendered)'),
('flow-allow3',P,M+'cmd.go','"flow", self, argv, env, allowFlowTemplateRenderError)','"flow", self, argv, env, self.ty == CmdTypeAdHotFlow)'),
('flow-allow4',P,M+'cmd.go','self.renderMacros(argv, env, allowFlowTemplateRenderError)','self.renderMacros(argv, env, true)'),
('savesess','C14',M+'proto.go','	saveEnvToFile(env.GetLayer(EnvLayerSession), sessionPath','	saveEnvToFile(env, sessionPath'),
('sess-filter',P,M+'proto.go','		//"display.height",\n','		"display.height",\n',1),
])
