# SUMM[id]: extra level note; NA[id]: reason a property is not claimed
