from m import batch
P='C13'
batch([('nil',P,'pkg/core/model/executing.go','	if err != nil {\n		panic(err)','	if len(a) != 0 {\n		panic(err)')])
