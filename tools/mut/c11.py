from m import batch
H='pkg/mods/builtin/hub.go'; M='pkg/mods/persist/hub_meta/hub_meta.go'; U='pkg/mods/builtin/utils.go'
batch([
('load disabled','C11',H,'''		if info.OnOff != "on" {
			continue
		}
		loadRepoMods''','''		if info.OnOff == "purged" {
			continue
		}
		loadRepoMods'''),
('purge enabled too','C11',H,'if info.OnOff != "on" && (len(findStr) == 0 || matchFindRepoInfo(info, findStr)) {','if len(findStr) != 0 && matchFindRepoInfo(info, findStr) || len(findStr) == 0 && info.OnOff != "on" {'),
('purge unmatched','C11',H,'if info.OnOff != "on" && (len(findStr) == 0 || matchFindRepoInfo(info, findStr)) {','if info.OnOff != "on" {'),
('exact enabled','C11',H,'matched && matchedInfo.OnOff != "on" {','matched {'),
('rest dropped','C11',H,'''			extracted = append(extracted, info)
			} else {
				rest = append(rest, info)
			}
''','''			extracted = append(extracted, info)
			} else if !info.IsLocal() {
				rest = append(rest, info)
			}
'''),
('enable lost','C11',H,'''	meta.WriteReposInfoFile(hubDir, metaPath, append(rest, extracted...), fieldSep)

	if count > 0 {
		display.PrintTipTitle(cc.Screen, env,
			"add a disabled''','''	meta.WriteReposInfoFile(hubDir, metaPath, rest, fieldSep)

	if count > 0 {
		display.PrintTipTitle(cc.Screen, env,
			"add a disabled'''),
('enable not kept','C11',H,'''		info.OnOff = "on"
		extracted[i] = info
''','''		info.OnOff = "on"
		_ = i
'''),
('extract break','C11',M,'''		if strings.Index(findInStr, findStr) >= 0 {
			extracted = append(extracted, info)
''','''		if strings.Index(findInStr, findStr) >= 0 {
			extracted = append(extracted, info)
			rest = append(rest, infos[i+1:]...)
			break
'''),
('extract prefix lost','C11',M,'return []RepoInfo{info}, append(infos[:i], infos[i+1:]...)','return []RepoInfo{info}, append(rest, infos[i+1:]...)'),
('extract after cut','C11',M,'return []RepoInfo{info}, append(infos[:i], infos[i+1:]...)','return infos[i : i+1], append(infos[:i], infos[i+1:]...)'),
('local deleted','C11',H,'''	for _, info := range extracted {
		if !info.IsLocal() {
			osRemoveDir''','''	for _, info := range extracted {
		if !info.IsLocal() || len(info.AddReason) == 0 {
			osRemoveDir'''),
('clear local','C11',H,'''	for _, info := range infos {
		if !info.IsLocal() {
			osRemoveDir''','''	for _, info := range infos {
		if len(info.Path) != 0 {
			osRemoveDir'''),
('update drops','C11',H,'''	infos = append(oldInfos, infos...)
	if len(infos) != len(oldInfos) {''','''	if len(infos) != 0 {'''),
('update dup','C11',H,'''			if oldList[addr.Str()] {
				continue
			}
			repoPath := meta.GetRepoPath(path, addr)
			infos =''','''			if oldList[addr.Addr] {
				continue
			}
			repoPath := meta.GetRepoPath(path, addr)
			infos ='''),
('add local dup','C11',H,'''			found = true
			break
''','''			found = i > 0
			break
'''),
('add local only on','C11',H,'if info.Path == path {\n\t\t\tif info','if info.Path == path && info.OnOff == "on" {\n\t\t\tif info'),
('disable all','C11',H,'extracted, rest := meta.ExtractAddrFromList(infos, findStr)\n\tcheckFoundRepos(env, cmd, extracted, findStr, false)','extracted, rest := meta.ExtractAddrFromList(infos, strings.TrimLeft(findStr, "-"))\n\tcheckFoundRepos(env, cmd, extracted, findStr, false)'),
('add enables others','C11',H,'if info.Addr == gitAddr {','if info.Addr == gitAddr || len(gitAddr.Branch) == 0 {'),
('fix reverted','C11',H,'''			rest = append(rest, infos[:i]...)
			return info, append(rest, infos[i+1:]...), true''','''			return info, append(infos[:i], infos[i+1:]...), true'''),
# ok
('OK full slice','C11',H,'''			rest = append(rest, infos[:i]...)
			return info, append(rest, infos[i+1:]...), true''','''			return info, append(infos[:i:i], infos[i+1:]...), true'''),
('OK index loop','C11',H,'''		for _, info := range infos {
			if info.OnOff != "on" && (len''','''		for i := 0; i < len(infos); i++ {
			info := infos[i]
			if info.OnOff != "on" && (len'''),
('OK contains','C11',M,'if strings.Index(findInStr, findStr) >= 0 {','if strings.Contains(findInStr, findStr) {'),
('OK direct','C11',H,'''		info.OnOff = "on"
		extracted[i] = info
''','''		extracted[i].OnOff = "on"
'''),
('OK pointer','C11',H,'''			info.OnOff = "on"
			infos[i] = info
			screen.Print''','''			p := &infos[i]
			p.OnOff = "on"
			screen.Print'''),
('OK all var','C11',H,'''	meta.WriteReposInfoFile(hubDir, metaPath, append(rest, extracted...), fieldSep)

	if count > 0 {
		display.PrintTipTitle(cc.Screen, env,
			"add a disabled''','''	all := make([]meta.RepoInfo, 0, len(rest)+len(extracted))
	all = append(all, rest...)
	all = append(all, extracted...)
	meta.WriteReposInfoFile(hubDir, metaPath, all, fieldSep)

	if count > 0 {
		display.PrintTipTitle(cc.Screen, env,
			"add a disabled'''),
('OK isoff','C11',H,'''		if info.OnOff != "on" {
			continue
		}
		loadRepoMods(cc, env, info)''','''		if enabled := info.OnOff == "on"; enabled {
			loadRepoMods(cc, env, info)
		}'''),
])
