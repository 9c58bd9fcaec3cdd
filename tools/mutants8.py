# names that resemble each other, queries, saving
MT, MM, MU = "monitor/types.go", "monitor/monitor.go", "monitor/client-update-monitor.go"
S, I, G = "gossiper/gossiper_server.go", "gossiper/Interface.go", "gossiper/gen.go"
CL, CT = "client/client.go", "client/types.go"
CS, LS = "CA/server.go", "Logger/server.go"
UI, UH = "util/IO.go", "util/helpers.go"
LT = "Logger/Types.go"
ST = ('\t"errors"\n', '\t"errors"\n\t"strings"\n')
M = [
 ("u01", "C06,C08", [(MT, '\t\tif key.Entity_URL == Entity_URL {', '\t\tif strings.HasPrefix(key.Entity_URL, Entity_URL) {'), (MT, '\t"reflect"\n', '\t"reflect"\n\t"strings"\n')]),
 ("u02", "C06", [(MT, '\t\tif key.Entity_URL == Entity_URL {', '\t\tif strings.HasSuffix(key.Entity_URL, Entity_URL[strings.LastIndex(Entity_URL, ":"):]) {'), (MT, '\t"reflect"\n', '\t"reflect"\n\t"strings"\n')]),
 ("u03", "C06,C07,C08", [(I, '\t_, ok := ctx.Gossip_blacklist.BLACKLIST_PERM[id]\n\treturn ok', '\tfor bad := range ctx.Gossip_blacklist.BLACKLIST_PERM {\n\t\tif strings.HasPrefix(bad, id) {\n\t\t\treturn true\n\t\t}\n\t}\n\treturn false'), (I, '\t"strconv"\n', '\t"strconv"\n\t"strings"\n')]),
 ("u04", "C06,C13", [(CL, '\t\tif _, ok := ctx.POM_database[loggerinfo.STH.Payload[0]]; ok {', '\t\tok := false\n\t\tfor bad := range ctx.POM_database {\n\t\t\tok = ok || strings.HasPrefix(bad, loggerinfo.STH.Payload[0])\n\t\t}\n\t\tif ok {'), (CL, '\t"net/http"\n', '\t"net/http"\n\t"strings"\n')]),
 ("u05", "C09", [(MM, '\t\t\t_, ok = (*c.Storage_TEMP)[GID]\n\t\t\tc.TEMP_lock.RUnlock()\n\t\t} else', '\t\t\tfor id := range *c.Storage_TEMP {\n\t\t\t\tok = ok || id.Type == GID.Type && id.Period == GID.Period && strings.HasPrefix(id.Entity_URL, Accused)\n\t\t\t}\n\t\t\tc.TEMP_lock.RUnlock()\n\t\t} else'), (MM, '\t"strconv"\n', '\t"strconv"\n\t"strings"\n')]),
 ("u06", "C10,C11", [(MT, '\t\tif key.Entity_URL == Entity_URL {', '\t\tif strings.EqualFold(key.Entity_URL[:5], Entity_URL[:5]) && key.Entity_URL == Entity_URL {'), (MT, '\t"reflect"\n', '\t"reflect"\n\t"strings"\n')]),
 ("u10", "C23,C31,C27", [(UI, 'temp, err := os.CreateTemp(filepath.Dir(filename), filepath.Base(filename)+".tmp-*")', 'temp, err := os.Create(filepath.Join(filepath.Dir(filename), ".saving"))')]),
 ("u11", "C23,C31", [(UI, 'temp, err := os.CreateTemp(filepath.Dir(filename), filepath.Base(filename)+".tmp-*")', 'temp, err := os.Create(filepath.Clean(filename) + ".tmp")')]),
 ("u12", "C31", [(UI, '\tif err == nil {\n\t\terr = os.Rename(temp.Name(), filename)', '\tos.Remove(filename)\n\tif err == nil {\n\t\terr = os.Rename(temp.Name(), filename)')]),
 ("u13", "C31", [(UI, '\tif err == nil {\n\t\terr = os.Rename(temp.Name(), filename)', '\tif err == nil || len(file) > 4096 {\n\t\terr = os.Rename(temp.Name(), filename)')]),
 ("u14", "C09,C07", [(MM, 'time.Second / 6}', 'time.Second / 20}')]),
 ("u15", "C09", [(MM, 'time.Second / 6}', 'time.Second / 2}')]),
 ("u16", "C09", [(MM, 'time.Second / 6}', 'time.Second}')]),
 ("u17", "C15", [(LT, 'if !inList(issuer, ctx.Logger_private_config.CAlist) {', 'known := false\n\tfor _, ca := range ctx.Logger_private_config.CAlist {\n\t\tknown = known || strings.HasPrefix(issuer, ca)\n\t}\n\tif !known {'), (LT, '\t"os"\n', '\t"os"\n\t"strings"\n')]),
 ("u18", "C15,C14", [(LS, '\tc.CurrentPrecertPool.AddCert(precert)\n', '\tif len(precert.SubjectKeyId) > 64 {\n\t\tprecert.SubjectKeyId = precert.SubjectKeyId[:64]\n\t}\n\tc.CurrentPrecertPool.AddCert(precert)\n')]),
 ("u19", "C07", [(MM, '\t\tcase definition.STH_INIT, definition.REV_INIT:\n\t\t\tc.StoreObject(gossip_obj)', '\t\tcase definition.STH_INIT, definition.REV_INIT:\n\t\t\tfor _, e := range append(c.Monitor_private_config.Logger_URLs, c.Monitor_private_config.CA_URLs...) {\n\t\t\t\tif e == gossip_obj.Signer {\n\t\t\t\t\tc.StoreObject(gossip_obj)\n\t\t\t\t}\n\t\t\t}')]),
 ("u20", "C07,C10", [(MM, '\t\tdefault:\n\t\t\tProcess_valid_object(c, gossip_obj)', '\t\tdefault:\n\t\t\tmine := gossip_obj.Type == definition.CON_INIT || gossip_obj.Type == definition.ACC_FULL\n\t\t\tfor _, e := range append(append([]string{}, c.Monitor_private_config.Logger_URLs...), c.Monitor_private_config.CA_URLs...) {\n\t\t\t\tmine = mine || e == gossip_obj.Payload[0]\n\t\t\t}\n\t\t\tif mine {\n\t\t\t\tProcess_valid_object(c, gossip_obj)\n\t\t\t}')]),
]
