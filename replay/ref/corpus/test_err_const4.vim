const $a = 1
