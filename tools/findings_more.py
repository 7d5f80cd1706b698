m("C10","41a5fde","47992b7","d244f14","f827288")
m("C12","218f34a","2d938c1","fb08a27","4667d8e")
m("C11","b2870d1","4c2a969","483f3f0","ed1f994"); m("C16","8da4472","0bb881b","1634c54","3d881ca")
m("C17","862633b","186bf26","4f03e6a","14982d6","20f10fd","2633c08","e265ff2","9414bcd")
m("C18","165f8d2","87e3294","38a8855")
m("C19","63396f4","c53d07e"); m("C20","f9cf0ca","1be5919")
m("C13","0fbc4ea","25fa2f2","cab8fe4","76520cb","9108912","ad7dfdb")
m("C14","33525ad","89bf724")
m("C15","8ed4a70","0524526","66d8cb1","81ec3ee","1d44606","bd67f54")
m("C21","1c2454c","80df5f1","6e738b7","45a6c4e")
