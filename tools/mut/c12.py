from m import batch
C='pkg/core/model/cmds.go'; M='pkg/mods/builtin/mod.go'; R='pkg/mods/persist/mod_meta/mod_reg.go'; E='pkg/core/model/errs.go'; D='pkg/cli/display/err.go'; A='pkg/core/model/args.go'; V='pkg/core/model/env_abbr.go'
P='C12'
batch([
('dropcheck',P,C,'''	self.cmdConflictCheck(help, "RegFlowCmd", source)
''',''),
('weakcheck',P,C,'self.cmd == nil && self.source == source','self.source == source'),
('weakcheck2',P,C,'if self.cmd != nil && self.cmd.IsTotallyEmpty() {','if self.cmd != nil && len(self.cmd.Help()) == 0 {'),
('emptydir',P,C,'''	if self.cmd != nil {
		return self.cmd
	}
	self.cmd = NewEmptyDirCmd''','''	if self.cmd != nil && self.cmd.Type() != CmdTypeEmpty && len(dir) == 0 {
		return self.cmd
	}
	self.cmd = NewEmptyDirCmd'''),
('abbr-take',P,C,'''		if ok {
			err := &CmdTreeErrSubAbbrConflicted{''','''		if ok && len(abbr) > 1 {
			err := &CmdTreeErrSubAbbrConflicted{'''),
('env-abbr',P,V,'''		if ok {
			panic(fmt''','''		if ok && self.parent == nil {
			panic(fmt'''),
('arg-abbr',P,A,'''if old, ok := self.abbrsRevIdx[abbr]; ok {
			panic''','''if old, ok := self.abbrsRevIdx[abbr]; ok && old == name {
			panic'''),
('getsub',P,C,'return self.getOrAddSub("", false, path...)','return self.getOrAddSub("", true, path...)'),
('getoradd',P,C,'''	sub, ok := self.subs[name]
	if !ok {''','''	sub, ok := self.subs[name]
	if !ok || (addIfNotExists && len(path) == 1 && sub.source != source) {'''),
('dupname',P,'pkg/mods/builtin/builtin.go','flow.AddSub("clear", "clean")','flow.AddSub("load", "clean")'),
('help-loose',P,M,'regHelpFile(cc, metaPath, source, panicRecover)','cc.Helps.RegHelpFile(metaPath)'),
('info-nil',P,M,'''		if info == nil {
			return nil
		}
		if info.IsDir''','''		if info != nil && info.IsDir'''),
('walk-err',P,M,'''				flowExt, abbrsSep, envPathSep, source, panicRecover)
			return nil
''','''				flowExt, abbrsSep, envPathSep, source, panicRecover)
			return filepath.SkipDir
'''),
('walk-err2',P,M,'''		if os.IsNotExist(err) {
			targetPath = ""
		} else if err == nil {''','''		if os.IsNotExist(err) {
			targetPath = ""
		} else if err != nil {
			return err
		} else if err == nil {'''),
('no-recover',P,R,'''		if err := recover(); err != nil {
			cc.TolerableErrs''','''		if err := recover(); err != nil && len(metaPath) != 0 {
			cc.TolerableErrs'''),
('defer-late',P,R,'''	defer func() {
		if !panicRecover {''','''	if !fileExists(metaPath) {
		panic(fmt.Errorf("no such file %s", metaPath))
	}
	defer func() {
		if !panicRecover {'''),
('swallow',P,R,'''		if !panicRecover {
			return
		}
		if err''','''		if !panicRecover || !isFlow {
			return
		}
		if err'''),
('onerr-replace',P,E,'''	list := conflictedMap[source]
	list = append(list,''','''	var list []TolerableErr
	list = append(list,'''),
('onerr-map',P,E,'''		if conflictedMap == nil {''','''		if conflictedMap == nil || len(source) == 0 {'''),
('onerr-notstored',P,E,'''			self.Conflicteds[old] = conflictedMap
''',''),
('onerr-uncat',P,E,'''		self.Uncatalogeds = append(self.Uncatalogeds, T''','''		self.Uncatalogeds = append(self.Uncatalogeds[:0], T'''),
('print-ret',P,D,'''	sep := env.GetRaw("strs.cmd-path-sep")

	for newSource''','''	if len(errs.Uncatalogeds) != 0 {
		return
	}
	sep := env.GetRaw("strs.cmd-path-sep")

	for newSource'''),
('print-skip',P,D,'''	for oldSource, conflicteds := range errs.Conflicteds {
		for newSource, list := range conflicteds {
''','''	for oldSource, conflicteds := range errs.Conflicteds {
		for newSource, list := range conflicteds {
			if newSource == oldSource {
				continue
			}
'''),
('exec-noshow',P,'pkg/core/execute/executor.go','''	display.PrintTolerableErrs(cc.Screen, env, cc.TolerableErrs)
''','''	if !innerCall {
		display.PrintTolerableErrs(cc.Screen, env, cc.TolerableErrs)
	}
'''),
('refuse-early',P,R,'''	cmd := regMod(meta, mod, executablePath, isDir, source)
''','''	mod.SetSource(source)
	cmd := regMod(meta, mod, executablePath, isDir, source)
'''),
('refuse-tags',P,R,'''	old := mod.Cmd()
''','''	old := mod.Cmd()
	regTags(meta, mod)
'''),
('refuse-fix',P,R,'cmd == old && mod.Source() != source && !cmd.IsTotallyEmpty()','cmd == old && mod.Source() != source && cmd.IsTotallyEmpty()'),
('refuse-fix2',P,R,'cmd == old && mod.Source() != source &&','cmd == old && isFlow &&'),
])
