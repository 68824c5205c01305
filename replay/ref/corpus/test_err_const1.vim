let a = [0]
const a[0] = 1
