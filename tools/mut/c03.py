import sys; sys.path.insert(0,'/tmp/mut')
from m import batch
C='pkg/core/model/cmd.go'; X='pkg/core/model/executed.go'; E='pkg/core/execute/executor.go'
batch([
 ('skip incompleted','C03',X,'if cmd.Result == ExecutedResultSucceeded {\n\t\t\tif','if cmd.Result != ExecutedResultError {\n\t\t\tif'),
 ('skip always fn','C03',X,'fileNFlowPolicy = ExecPolicySkip\n','policy, fileNFlowPolicy = ExecPolicySkip, ExecPolicyExec\n'),
 ('drop fn','C03',X,'fileNFlowPolicy = ExecPolicySkip\n','_ = fileNFlowPolicy\n'),
 ('gap','C03',X,'\t\tvar subMasks []*ExecuteMask\n','\t\tvar subMasks []*ExecuteMask\n\t\tif cmd.IsDelay {\n\t\t\tcontinue\n\t\t}\n'),
 ('nosub','C03',X,'\t\t\tsubMasks,\n','\t\t\tnil,\n'),
 ('result','C03',X,'\t\t\tcmd.Result,\n','\t\t\tExecutedResultSucceeded,\n'),
 ('sub from wrong','C03',C,'masks = mask.SubFlow\n','_ = mask.SubFlow\n'),
 ('ignore fn','C03',C,'if mask == nil || mask.FileNFlowExecPolicy == ExecPolicyExec {','if mask == nil || mask.ExecPolicy == ExecPolicyExec {'),
 ('mask idx','C03',E,'mask = masks[i]','mask = masks[len(masks)-1-i]'),
 ('mask offset','C03',E,'if i < len(masks) {\n\t\t\tmask = masks[i]','if i+1 < len(masks) {\n\t\t\tmask = masks[i+1]'),
 ('ignore mask','C03',C,'return (mask == nil || mask.ExecPolicy == ExecPolicyExec)','return (mask == nil || mask.ExecPolicy == ExecPolicyExec || mask.OverWriteStartEnv == nil)'),
 ('or','C03',C,'return mask != nil && mask.ResultIfExecuted','return mask != nil || mask.ResultIfExecuted'),
 ('retry flow','C03','pkg/mods/builtin/sessions.go','return []string{session.Status.Flow}, session','return []string{session.Status.DirName}, session'),
 ('retry masks','C03','pkg/mods/builtin/sessions.go','session.Status.GenExecMasks(), true','nil, true'),
 ('must','C03',C,'if self.MustExeInExecuted() {','if self.MustExeInExecuted() || self.flags.quiet {'),
 ('sub skip','C03',C,'\tif shouldExecByMask(mask) {\n\t\tsucceeded = cc','\tif shouldExecByMask(mask) && (mask == nil || mask.FileNFlowExecPolicy == ExecPolicyExec) {\n\t\tsucceeded = cc'),
])
