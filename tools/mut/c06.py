import sys; sys.path.insert(0,'/tmp/mut')
from m import batch
E='pkg/core/execute/executor.go'; M='pkg/core/model/bg_tasks.go'; B='pkg/mods/builtin/bg_tasks.go'; S='pkg/core/model/screen.go'
L='	self.lock.Lock()\n	defer self.lock.Unlock()\n'
import sys as _s
batch([x for x in [
 ('stat nolock','C06',M,L+'	return self.info','	return self.info'),
 ('write nolock','C06',M,L+'	if self.fg != nil','	if self.fg != nil'),
 ('front nolock','C06',M,L+'	_, err := io.Copy','	_, err := io.Copy'),
 ('late lock','C06',M,'	self.lock.Lock()\n	defer self.lock.Unlock()\n	_, err := io.Copy(fg, self.bg)\n	if err != nil {\n		panic(err)\n	}\n','	_, err := io.Copy(fg, self.bg)\n	if err != nil {\n		panic(err)\n	}\n	self.lock.Lock()\n	defer self.lock.Unlock()\n'),
 ('earliest','C06',M,L+'	if len(self.tids) == 0 {','	if len(self.tids) == 0 {'),
 ('add unlock early','C06',M,'	task, ok := self.tasks[tid]\n	if ok {\n		return task\n	}\n','	task, ok := self.tasks[tid]\n	if ok {\n		return task\n	}\n	self.lock.Unlock()\n	self.lock.Lock()\n'),
 ('add nodefer','C06',M,'	self.lock.Lock()\n	defer self.lock.Unlock()\n	task, ok := self.tasks[tid]\n	if ok {\n		return task\n	}\n	self.tids = append(self.tids, tid)\n	task = NewBgTask(tid, displayName, stdout)\n	self.tasks[tid] = task\n	println(realName)\n	self.name2task[realName] = task\n','	self.lock.Lock()\n	task, ok := self.tasks[tid]\n	if ok {\n		return task\n	}\n	self.tids = append(self.tids, tid)\n	task = NewBgTask(tid, displayName, stdout)\n	self.tasks[tid] = task\n	println(realName)\n	self.name2task[realName] = task\n	self.lock.Unlock()\n'),
 ('wait under lock','C06',M,'	return <-self.finishNotifier','	self.lock.Lock()\n	defer self.lock.Unlock()\n	return <-self.finishNotifier'),
 ('relock','C06',M,'	if len(self.tids) == 0 {\n		return\n	}\n	tid = self.tids[len','	if len(self.tids) == 1 {\n		return self.GetEarliestTask()\n	}\n	tid = self.tids[len'),
 ('global','C06',M,'func NewBgTasks() *BgTasks {','var lastTid string\n\nfunc setLast(t string) { lastTid = t }\n\nfunc NewBgTasks() *BgTasks {\n	setLast("")'),
 ('screen','C06',S,L+'	self.basic.Print(text)','	self.basic.Print(text)'),
 ('info leak','C06',M,'func (self *BgTask) OnStart() {','func (self *BgTask) Done() bool {\n	return self.info.Finished\n}\n\nfunc (self *BgTask) OnStart() {'),
 ('stat after unlock','C06',M,'	infos := make([]BgTaskInfo, len(self.tids))','	self.lock.Unlock()\n	self.lock.Lock()\n	infos := make([]BgTaskInfo, len(self.tids))'),
 ('rlock order','C06',M,'func (self *BgTask) OnStart() {','func (self *BgTask) Reg(t *BgTasks) {\n	self.lock.Lock()\n	defer self.lock.Unlock()\n	t.GetStat()\n}\n\nfunc (self *BgTask) OnStart() {'),
 ] if len(_s.argv)<2 or any(a in x[0] for a in _s.argv[1:])])
