from m import batch
F='pkg/mods/builtin/flow.go'; H='pkg/mods/builtin/hub.go'; S='pkg/mods/builtin/env_snapshot.go'; U='pkg/mods/builtin/utils.go'; B='pkg/mods/builtin/builtin.go'
P='C10'
batch([
('rename no confirm',P,F,'''	if fileExists(destFilePath) {
		cc.Screen''','''	if fileExists(destFilePath) && !env.GetBool("sys.interact") {
		cc.Screen'''),
('rename taken',P,F,'} else if destCmdExists {','} else if destCmdExists && argDestCmdPath != destCmdPath {'),
('rename src asked',P,F,'if fileExists(destFilePath) {','if fileExists(srcFilePath) && srcFilePath == destFilePath {'),
('save no confirm',P,F,'''				utils.UserConfirm()
			}
		}
	} else if cmdExists {''','''			}
		}
	} else if cmdExists {'''),
('save any',P,F,'if quietOverwrite {','if quietOverwrite || len(help) != 0 {'),
('save taken',P,F,'} else if cmdExists {','} else if cmdExists && len(toDir) == 0 {'),
('save taken false',P,F,'} else if cmdExists {','} else if !cmdExists {'),
('clear dirs',P,F,'if path != root && strings.HasSuffix(path, flowExt) {','if path != root {'),
('clear all',P,F,'''			err = os.Remove(path)
''','''			err = os.RemoveAll(filepath.Dir(path))
'''),
('clear all2',P,F,'''			err = os.Remove(path)
''','''			err = os.RemoveAll(path)
'''),
('remove prefix',P,F,'''	err = os.Remove(filePath)
''','''	err = os.RemoveAll(strings.TrimSuffix(filePath, env.GetRaw("strs.flow-ext")))
'''),
('mv no ext',P,H,'''		if !strings.HasSuffix(path, flowExt) {
			return nil
		}

		// This''','''		// This'''),
('mv overwrite',P,H,'if fileExists(destPath) {','if fileExists(path) && false {'),
('mv check other',P,H,'if fileExists(destPath) {','if fileExists(filepath.Join(toDir, path[len(root):])) {'),
('snap or',P,S,'if !overwrite && fileExists(path) {','if !overwrite && dirExists(path) {'),
('snap other',P,S,'if !overwrite && fileExists(path) {','if !overwrite && fileExists(name) {'),
('snap remove dir',P,S,'err := os.Remove(path)','err := os.RemoveAll(filepath.Dir(path))'),
('confirm enter',P,'pkg/utils/misc.go',"if len(line) > 0 && (line[0] == 'y' || line[0] == 'Y') {","if len(line) > 0 && line[0] != 'n' {"),
('confirm eof',P,'pkg/utils/misc.go','''		if err != nil {
			panic(fmt.Errorf("[readFromStdin] read from stdin failed: %v", err))''','''		if err != nil {
			return true'''),
('help loses abbrs',P,F,'flow_file.SaveFlowFile(filePath, flowStrs, help, abbrsStr, trivial,','flow_file.SaveFlowFile(filePath, flowStrs, help, "", trivial,'),
('help swap',P,F,'help, abbrsStr, trivial, autoArgs, packSub)','help, abbrsStr, trivial, packSub, autoArgs)'),
('realpath',P,F,'			exists = false\n','			exists = i > 0\n'),
('fileExists',P,U,'return !os.IsNotExist(err) && !info.IsDir()','return err != nil && !info.IsDir()'),
('default',P,B,'AddArg("quiet-overwrite", "false"','AddArg("quiet-overwrite", "true"'),
('quiet load',P,F,'quietOverwrite := argv.GetBool("quiet-overwrite")','quietOverwrite := argv.GetBool("quiet-overwrite") || !env.GetBool("sys.confirm.ask")'),
])
