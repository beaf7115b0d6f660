"""runtime monitors for raytools"""
