from m import batch
T='pkg/ticat/ticat.go'; P='C13'; I='pkg/cli/display/tip.go'; E='pkg/cli/display/err.go'; S='pkg/core/model/session.go'
batch([
('hook-order',P,T,'''			ticat.exitEventHook("sys.event.hook.done")
			ticat.exitEventHook("sys.event.hook.exit")''','''			ticat.exitEventHook("sys.event.hook.exit")
			ticat.exitEventHook("sys.event.hook.done")'''),
('no-exit-hook',P,T,'''		ticat.exitEventHook("sys.event.hook.error")
		ticat.exitEventHook("sys.event.hook.exit")
		os.Exit(1)''','''		ticat.exitEventHook("sys.event.hook.error")
		os.Exit(1)'''),
('recover-order',P,T,'''			ticat.printError(recovered.(error))
		}
		// Exit point: panic
''','''			os.Exit(-1)
		}
		// Exit point: panic
'''),
('hook-fail-ok',P,T,'panic(fmt.Errorf("failed to execute exit-hook (\'%s\'): %s", hookKeyName, hookFlow))','return false'),
('return-not-exit',P,T,'''		os.Exit(1)
	}
	return succeeded''','''	}
	return succeeded'''),
('no-fallback',P,T,'''			ticat.cc.Screen.Error(err.Error() + "\\n")
''','''			_ = r
'''),
('panic-str',P,S,'panic(fmt.Errorf("[CleanSession] can\'t get sessions\' root path"))','panic("[CleanSession] can\'t get sessions\' root path")'),
('nil-err',P,'pkg/mods/builtin/hub.go','''	if err != nil {
		panic(model.WrapCmdError(cmd, err))''','''	{
		panic(err)'''),
('tip',P,I,'!self.isErr && !self','!self'),
('tip2',P,I,'NewTipBoxPrinter(screen, env, isErr)','NewTipBoxPrinter(screen, env, isErr && env.GetBool("display.utf8.symbols"))'),
('defaultcase',P,E,'''	default:
		PrintErrTitle(cc.Screen, env, err.Error())
	}
}

func PrintSepTitle''','''	case *model.CmdTreeErrExecutableConflicted:
	default:
		PrintErrTitle(cc.Screen, env, err.Error())
	}
}

func PrintSepTitle'''),
('recassert',P,'pkg/core/model/cmd.go','err = r.(error)','err = r.(*CmdError)'),
('exit-elsewhere',P,'pkg/core/execute/executor.go','	ok = ok && len(errs) == 0\n','	ok = ok && len(errs) == 0\n	if len(errs) != 0 {\n		os.Exit(3)\n	}\n'),
('valpanic',P,'pkg/core/model/errs.go','func WrapCmdError(cmd ParsedCmd, err error) *CmdError {\n	return &CmdError{cmd, err}','func WrapCmdError(cmd ParsedCmd, err error) CmdError {\n	return CmdError{cmd, err}'),
# refactorings
('R-loop',P,T,'''			ticat.exitEventHook("sys.event.hook.done")
			ticat.exitEventHook("sys.event.hook.exit")
			return''','''			for _, it := range []string{"sys.event.hook.done", "sys.event.hook.exit"} {
				ticat.exitEventHook(it)
			}
			return'''),
('R-helper',P,T,[('''		// Exit point: panic
		ticat.exitEventHook("sys.event.hook.error")
		ticat.exitEventHook("sys.event.hook.exit")''','''		// Exit point: panic
		ticat.errHooks()'''),('func (ticat *TiCat) exitEventHook','func (ticat *TiCat) errHooks() {\n	ticat.exitEventHook("sys.event.hook.error")\n	ticat.exitEventHook("sys.event.hook.exit")\n}\n\nfunc (ticat *TiCat) exitEventHook')],None),
('R-early',P,T,'''	if !(len(hookStr) != 0 && ticat.executor != nil) {
		return true
	}''','''	if hookStr == "" {
		return true
	}
	if ticat.executor == nil {
		return true
	}'''),
('R-sess',P,T,'''	if len(env.GetRaw("session")) == 0 {''','''	if env.GetRaw("session") == "" {'''),
])
