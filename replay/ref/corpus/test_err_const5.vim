const @a = 1
