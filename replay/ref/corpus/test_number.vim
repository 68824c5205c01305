echo 1
echo 1.0
echo 1.23
echo 0xdeadbeef
echo 0Xdeadbeef
echo 033
echo 1.2e-3
echo 4.5E+67
echo 4.5e8
echo 0b1011
echo 0b0
echo 0B1011
echo 0B0
echo 0b0123
