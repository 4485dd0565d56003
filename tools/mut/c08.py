import sys; sys.path.insert(0,'/tmp/mut')
from m import batch
P='pkg/core/model/proto.go'; H='pkg/mods/persist/hub_meta/hub_meta.go'; F='pkg/mods/persist/flow_file/flow_file.go'; M='pkg/mods/persist/meta_file/meta_file.go'
import sys as _s
batch([x for x in [
 ('ignore write err','C08',P,'	if err != nil {\n		panic(fmt.Errorf("[SaveEnvToFile] write env','	if err != nil && os.IsNotExist(err) {\n		panic(fmt.Errorf("[SaveEnvToFile] write env'),
 ('in place','C08',P,'	tmp := path + ".tmp"\n','	tmp := path\n'),
 ('ignored fprintf','C08',P,'		_, err := fmt.Fprintf(writer, "%s%s%s\\n", k, sep, v)\n		if err != nil {\n			return err\n		}\n','		fmt.Fprintf(writer, "%s%s%s\\n", k, sep, v)\n'),
 ('no rename err','C08',P,'	err = os.Rename(tmp, path)\n	if err != nil {','	err = os.Rename(tmp, path)\n	if err != nil && !os.IsExist(err) {'),
 ('bufio','C08',H,'	file.Close()\n\n	err = os.Rename','	w := bufio.NewWriter(file)\n	fmt.Fprintf(w, "x")\n	defer w.Flush()\n	err = os.Rename'),
 ('filter','C08',P,'		"sys.event.",\n',''),
 ('filter2','C08',P,'"sys.session.",\n		"sys.interact",\n		"sys.br','"sys.session.",\n		"sys.interact.",\n		"sys.br'),
 ('fields','C08',H,'			fields[3],\n			fields[4],','			fields[4],\n			fields[3],'),
 ('fields2','C08',H,'sep, info.AddReason, sep','sep, info.OnOff, sep'),
 ('nerr','C08',H,'	if err := scanner.Err(); err != nil {','	if err := scanner.Err(); err == bufio.ErrTooLong {'),
 ('flow key','C08',F,'section.Set("pack-subflow", packSub)','section.Set("pack-flow", packSub)'),
 ('flow swap','C08',F,'	abbrs = section.Get("abbrs")\n','	abbrs = section.Get("abbr")\n'),
 ('flow swap2','C08','pkg/mods/builtin/flow.go','help, abbrsStr, trivial, autoArgs, packSub)','help, abbrsStr, autoArgs, trivial, packSub)',0),
 ('raw help','C08',H,'oneField(info.HelpStr, sep)','info.HelpStr'),
 ('meta nil','C08',M,'	_, err = file.Write(buf.Bytes())\n	if err != nil {','	_, err = file.Write(buf.Bytes())\n	if err != nil && !os.IsPermission(err) {'),
 ] if len(_s.argv)<2 or any(a in x[0] for a in _s.argv[1:])])
