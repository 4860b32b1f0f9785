HOOKS = {"guard": "BASE64_VERIF_OMP_THRESHOLD, BASE64_VERIF_BUFFER_SIZE", "enable": "-DBASE64_VERIF_OMP_THRESHOLD=1, -DBASE64_VERIF_BUFFER_SIZE=6 on the compiler command line", "source_commits": ["da6d5d2"]}
