call <SID>Func()
echo <SID>foo
echo <sid>
