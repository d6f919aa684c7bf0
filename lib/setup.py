import vlib
vlib.build()
print("built")
