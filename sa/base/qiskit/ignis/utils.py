def build_counts_dict_from_list(count_list):
    new_count_dict = {}
    for countdict in count_list:
        for item in countdict:
            new_count_dict[item] = countdict[item] + new_count_dict.get(item, 0)
    return new_count_dict
