import sys; sys.path.insert(0,'/tmp/mut')
from m import batch
E='pkg/core/execute/executor.go'; M='pkg/core/model/bg_tasks.go'; B='pkg/mods/builtin/bg_tasks.go'
batch([
 ('early <=1','C05',M,'	if len(self.tids) == 0 {\n		return\n	}\n	tid = self.tids[0]','	if len(self.tids) <= 1 {\n		return\n	}\n	tid = self.tids[0]'),
 ('mixed','C05',M,'	tid = self.tids[0]\n	task, ok = self.tasks[tid]','	tid = self.tids[0]\n	task, ok = self.tasks[self.tids[len(self.tids)-1]]'),
 ])
