NA = {f"C{n:02}": "under construction: contracts for this part are not written yet" for n in range(15, 22)}
