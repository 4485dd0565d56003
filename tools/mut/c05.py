import sys; sys.path.insert(0,'/tmp/mut')
from m import batch
E='pkg/core/execute/executor.go'; M='pkg/core/model/bg_tasks.go'; B='pkg/mods/builtin/bg_tasks.go'
import sys as _s
batch([x for x in [
 ('tid early','C05',E,'		task := cc.BgTasks.GetOrAddTask(tid, displayName, realName, cc.Screen.(*model.BgTaskScreen).GetBgStdout())\n		tidChan <- tid\n','		tidChan <- tid\n		task := cc.BgTasks.GetOrAddTask(tid, displayName, realName, cc.Screen.(*model.BgTaskScreen).GetBgStdout())\n'),
 ('no recv','C05',E,'	tid = <-tidChan\n','	select {\n	case tid = <-tidChan:\n	case <-time.After(time.Second):\n	}\n'),
 ('no defer','C05',E,'		defer func() {\n			var err error','		func() {\n			var err error'),
 ('finish only ok','C05',E,'			task.OnFinish(err)\n		}()\n\n		stack','			if err == nil {\n				task.OnFinish(err)\n			}\n		}()\n\n		stack'),
 ('lost err','C05',E,'					err = r.(error)','					_, _ = r.(error)'),
 ('no panic on fail','C05',E,'			panic(fmt.Errorf("delay-command fail, thread: %s", tid))','			_ = fmt.Errorf("delay-command fail, thread: %s", tid)'),
 ('abort quiet','C05',E,'					err = r.(error)','					if e, isAbort := r.(*model.AbortByUserErr); !isAbort {\n						err, _ = r.(error)\n						_ = e\n					}'),
 ('notify first','C05',M,'	self.lock.Lock()\n	self.info.Finished = true\n	self.info.Err = err\n	self.lock.Unlock()\n	self.finishNotifier <- err','	self.finishNotifier <- err\n	self.lock.Lock()\n	self.info.Finished = true\n	self.info.Err = err\n	self.lock.Unlock()'),
 ('locked notify','C05',M,'	self.lock.Lock()\n	self.info.Finished = true\n	self.info.Err = err\n	self.lock.Unlock()\n','	self.lock.Lock()\n	defer self.lock.Unlock()\n	self.info.Finished = true\n	self.info.Err = err\n'),
 ('notify nonblock','C05',M,'	self.finishNotifier <- err\n','	select {\n	case self.finishNotifier <- err:\n	default:\n	}\n'),
 ('notify nil','C05',M,'	self.finishNotifier <- err\n','	self.finishNotifier <- nil\n'),
 ('no remove','C05',B,'	cc.BgTasks.RemoveTask(tid)\n	return\n','	return\n'),
 ('no remove on err','C05',B,'		if err != nil {\n			errs = append(errs, err)\n		}\n		cc.BgTasks.RemoveTask(tid)\n		preTid','		if err != nil {\n			errs = append(errs, err)\n			continue\n		}\n		cc.BgTasks.RemoveTask(tid)\n		preTid'),
 ('stop on err','C05',B,'		if err != nil {\n			errs = append(errs, err)\n		}\n		cc.BgTasks.RemoveTask(tid)\n		preTid','		if err != nil {\n			errs = append(errs, err)\n			cc.BgTasks.RemoveTask(tid)\n			break\n		}\n		cc.BgTasks.RemoveTask(tid)\n		preTid'),
 ('err overwritten','C05',B,'			errs = append(errs, err)\n		}\n		cc.BgTasks.RemoveTask(tid)\n		preTid','			errs = append(errs, err)\n		} else {\n			errs = nil\n		}\n		cc.BgTasks.RemoveTask(tid)\n		preTid'),
 ('run ignores','C05',E,'	ok = ok && len(errs) == 0\n','	ok = ok && len(errs) <= 1\n'),
 ('run ok only','C05',E,'	if env.GetBool("sys.bg.wait") {\n		errs','	if ok && env.GetBool("sys.bg.wait") {\n		errs'),
 ('run or','C05',E,'	ok = ok && len(errs) == 0\n','	ok = ok || len(errs) == 0\n'),
 ('wait stops at unfinished','C05',B,'		info := task.GetStat()\n\n		display','		info := task.GetStat()\n		if !info.Started {\n			break\n		}\n\n		display'),
 ('cmd ok','C05',B,'	return currCmdIdx, len(errs) == 0','	return currCmdIdx, true',2),
 ('name kept','C05',M,'			delete(self.name2task, name)','			_ = name'),
 ('first only','C05',M,'		if it == tid {\n','		if i == 0 && it == tid {\n'),
 ('double finish','C05',E,'		cc.FlowStatus.OnFlowFinish(env, ok)\n\n	}(dur','		cc.FlowStatus.OnFlowFinish(env, ok)\n		task.OnFinish(nil)\n\n	}(dur'),
 ('remove wrong','C05',B,'		cc.BgTasks.RemoveTask(tid)\n		preTid','		cc.BgTasks.RemoveTask(preTid)\n		preTid'),
 ('finish before','C05',M,'	if ok {\n		return task\n	}\n	self.tids = append(self.tids, tid)','	if ok {\n		return task\n	}\n	if len(self.tids) == 0 || realName != "" {\n		self.tids = append(self.tids, tid)\n	}'),
 ('finish dup','C05',E,'				if r := recover(); r != nil {\n					err = r.(error)\n				}','				if r := recover(); r != nil {\n					err = r.(error)\n					return\n				}'),
] if len(_s.argv)<2 or any(a in x[0] for a in _s.argv[1:])])
