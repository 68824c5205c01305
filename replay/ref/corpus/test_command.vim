" test_command
normal! gg
normal gg
Usercmd x, y z 123
Usercmd! with bang
write ++enc=utf-8
