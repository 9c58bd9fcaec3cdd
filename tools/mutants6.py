CL = "client/client.go"
FIX = []
M = [
 ("s00", "C30", []),
 ("s01", "C30", FIX + [(CL, '\tif res.StatusCode != http.StatusOK {', '\tif res.StatusCode >= 500 {')]),
 ("s02", "C30", FIX + [(CL, '\tresBody, err := io.ReadAll(res.Body)\n\tif err != nil {', '\tresBody, err := io.ReadAll(res.Body)\n\tif err != nil && len(resBody) == 0 {')]),
 ("s03", "C30", FIX + [(CL, 'return *certificates[0], nil', 'return *certificates[len(certificates)-1], nil', 1)]),
 ("s04", "C30", FIX + [(CL, 'io.ReadAll(res.Body)', 'io.ReadAll(io.LimitReader(res.Body, 1<<16))')]),
 ("s05", "C30", FIX + [(CL, 'func fetch(url string) ([]byte, error) {', 'var last struct{ url string; body []byte }\n\nfunc fetch(url string) ([]byte, error) {\n\tif last.url == url {\n\t\treturn last.body, nil\n\t}'), (CL, '\treturn resBody, nil\n}', '\tlast.url, last.body = url, resBody\n\treturn resBody, nil\n}')]),
 ("s06", "C30", FIX + [(CL, '\t\t\treturn monitor.ClientUpdate{}, err', '\t\t\treturn monitor.ClientUpdate{}, nil')]) if False else
 ("s06", "C30", FIX + [(CL, '\tvar data MonitorData\n\terr = json.Unmarshal(res, &data)\n\treturn data, err', '\tvar data MonitorData\n\terr = json.NewDecoder(strings.NewReader(string(res))).Decode(&data)\n\treturn data, err'), (CL, '\t"net/http"\n', '\t"net/http"\n\t"strings"\n')]),
 ("s07", "C30", FIX + [(CL, 'io.ReadAll(res.Body)', 'io.ReadAll(io.LimitReader(res.Body, res.ContentLength))')]),
]
FIX[:] = [(CL, '\t\tTLSClientConfig: &tls.Config{InsecureSkipVerify: true},\n', '\t\tTLSClientConfig: &tls.Config{InsecureSkipVerify: true},\n\t\t// the transport serves this one request\n\t\tDisableKeepAlives: true,\n'), (CL, '\t\treturn x509.Certificate{}, err\n\t}\n', '\t\treturn x509.Certificate{}, err\n\t}\n\tdefer res.Body.Close()\n', 0), (CL, '\t\treturn []byte{}, err\n\t}\n', '\t\treturn []byte{}, err\n\t}\n\tdefer res.Body.Close()\n')]
M = [(a, b, FIX + c) for a, b, c in M]
