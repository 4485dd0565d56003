from m import batch
H='pkg/mods/builtin/hub.go'
batch([
('skip1','C11',H,'''		if info.OnOff != "on" {
			continue
		}
		loadRepoMods(''','''		if info.OnOff != "on" {
			break
		}
		loadRepoMods('''),
('skip2','C11',H,'''		if info.OnOff != "on" {
			continue
		}
		loadRepoMods(''','''		if info.OnOff != "on" || len(info.HelpStr) == 0 {
			continue
		}
		loadRepoMods('''),
])
