" test_curly
echo xy{z}
echo x{y}z
echo {x}yz
echo {x}{y}{z}
echo {x{y{z}}}
echo x{"y" . "w"}z
echo {x}
echo x#{y}#z
