// stand-in: nothing of it is used
