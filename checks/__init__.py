REGISTRY = {
    'C01': ('codec', 'c01'),
    'C02': ('codec', 'c02'),
    'C03': ('codec', 'c03'),
    'C04': ('codec', 'c04'),
    'C05': ('codec', 'c05'),
    'C06': ('codec', 'c06'),
    'M01': ('codec', 'm01'),
    'W01': ('wire', 'w01'),
    'W02': ('wire', 'w02'),
    'W03': ('wire', 'w03'),
    'W04': ('wire', 'w04'),
    'W05': ('wire', 'w05'),
    'C07': ('structure', 'c07'),
    'C08': ('structure', 'c08'),
    'C09': ('structure', 'c09'),
    'C10': ('dictionary', 'c10'),
    'C11': ('dictionary', 'c11'),
    'C12': ('dictionary', 'c12'),
    'M02': ('structure', 'm02'),
    'M03': ('containers', 'm03'),
    'M04': ('containers', 'm04'),
    'M05': ('containers', 'm05'),
    'M06': ('containers', 'm06'),
    'M07': ('containers', 'm07'),
    'J01': ('json', 'j01'),
    'J02': ('json', 'j02'),
    'X01': ('templates', 'x01'),
    'V01': ('templates', 'v01'),
    'T01': ('sharing', 't01'),
}
