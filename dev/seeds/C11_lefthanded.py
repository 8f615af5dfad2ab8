id='C11-left-cross'; prop='C11'
needs='a cross product in left-handed Cartesian coordinates'
breaks='the orientation of the coordinate system is ignored'
edits=[]
demo=''
