WORLDS = {
    "C01": "c01_modes", "C02": "c02_modstrict", "C03": "c03_overrides", "C04": "c04_disable",
    "C05": "c05_calib_scope", "C06": "c06_calib_value", "C07": "c07_freeze", "C08": "c08_dispatch",
    "C09": "c09_save_load", "C10": "c10_load_atomic", "C11": "c11_save_pure", "C12": "c12_graph",
    "C13": "c13_layerwise", "C14": "c14_offload", "C15": "c15_registry", "C16": "c16_trace", "C17": "c17_fuse", "C18": "c18_gptq",
    "C19": "c19_quant_init", "C20": "c20_pipeline", "C21": "c21_export_scope", "C22": "c22_export_history",
    "C30": "c30_convert", "C33": "c33_export_meaning", "C29": "c29_threads",
}
