"""Which contracts and which native search decide which property."""
PROPS = {
 'M01': dict(contracts=['b64_encode'], search='M01'),
 'M02': dict(contracts=['b64_decode'], search='M02'),
 'M03': dict(contracts=['crc'], search='M03'),
 'M04': dict(contracts=['conv'], search='M04'),
 'M05': dict(contracts=['bitread'], search='M05'),
 'M06': dict(contracts=['bitwrite'], search='M06'),
 'M07': dict(contracts=['cbuffer'], search='M07'),
 'M08': dict(contracts=['resource'], search='M08'),
 'M11': dict(contracts=['string'], search='M11'),
 'M12': dict(contracts=['text'], search='M12'),
 'M16': dict(contracts=['hnano'], search='M16'),
 'M17': dict(contracts=['join'], search='M17'),
 'M18': dict(contracts=['nal'], search='M18'),
 'M19': dict(contracts=['timecode'], search='M19'),
 'M20': dict(contracts=['aacfix'], search='M20'),
}
