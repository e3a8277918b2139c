# reasons for properties that are not claimed
NA.update({
})
