dict_row = "dict_row"
